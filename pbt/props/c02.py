"""C02: the Kepler-equation solvers always return the root, and always return."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import refs
from refs import L, PI

K = 32

e_ell = st.one_of(
    gen.f_(0, 1, exclude_max=True), gen.f_(0, 0.9), st.just(0.0),
    gen.f_(-9, -1).map(lambda x: float(1 - 10.0**x)), gen.f_(-9, -1).map(lambda x: float(10.0**x)),
    gen.f_(0.9, 0.9999),
)
m_ang = st.one_of(
    gen.f_(-np.pi, np.pi), gen.f_(0, 2 * np.pi), gen.f_(-50, 50), gen.f_(-1000, 1000),
    gen.logf(1e-10, 1.0), gen.logf(1e-10, 1.0).map(lambda x: -x),
    st.integers(-8, 8).map(lambda k: float(k * np.pi)),
    st.tuples(st.integers(-6, 6), gen.logf(1e-10, 0.5), st.sampled_from([1, -1])).map(lambda t: float(2 * np.pi * t[0] + t[1] * t[2])),
)
e_hyp = st.one_of(
    gen.f_(-9, 0).map(lambda x: float(1 + 10.0**x)), gen.f_(1.001, 4), gen.logf(1.5, 1e3), gen.f_(1.0001, 1.1),
)
n_ang = st.one_of(
    gen.f_(-10, 10), gen.f_(-200, 200), gen.logf(1e-10, 1e6), gen.logf(1e-10, 1e6).map(lambda x: -x), st.just(0.0),
)
tols = st.one_of(st.none(), st.none(), st.sampled_from([1e-3, 1e-4, 1e-6, 1e-9, 1e-12]))


def dtype_e(cx, e):
    """Eccentricity in the session dtype, kept strictly on its side of 1."""
    x = cx.dt(e)
    if e < 1 and x >= 1:
        x = np.nextafter(cx.dt(1), cx.dt(0))
    if e > 1 and x <= 1:
        x = np.nextafter(cx.dt(1), cx.dt(2))
    return x


def kw(tol):
    return {} if tol is None else dict(tol=tol)


def jits(cx, name):
    """jit for one element and jit(vmap) for four, with and without an explicit tolerance."""
    key = ("c02", name)
    if key not in cx._jit:
        f = cx.get(name)
        j = cx.jax.jit
        n = {"solve_kepler_uni": 5}.get(name, 2)
        cx._jit[key] = dict(
            one=j(f), onet=j(lambda *a: f(*a[:n], tol=a[n])),
            vm=j(cx.jax.vmap(f)), vmt=j(cx.jax.vmap(lambda *a: f(*a[:n], tol=a[n]), in_axes=(0,) * n + (None,))),
        )
    return cx._jit[key]


def solve4(cx, name, cols, tol, batched):
    j = jits(cx, name)
    if batched:
        return cx.call(j["vm"], *cols, what=f"vmap({name})") if tol is None else cx.call(j["vmt"], *cols, cx.dt(tol), what=f"vmap({name})")
    out = []
    for row in zip(*cols):
        out.append(cx.call(j["one"], *row, what=name) if tol is None else cx.call(j["onet"], *row, cx.dt(tol), what=name))
    return np.stack(out)


@leg("C02", "elps")
def elps(cx):
    strat = st.fixed_dictionaries(
        dict(x=st.lists(st.tuples(m_ang, e_ell).map(list), min_size=4, max_size=4), tol=tols, b=st.booleans())
    )

    def check(cx, c):
        M = cx.a([x[0] for x in c["x"]])
        e = np.array([dtype_e(cx, x[1]) for x in c["x"]])
        E = solve4(cx, "solve_kepler_elps", (M, e), c["tol"], c["b"])
        cx.true(E.shape == (4,) and E.dtype == cx.dt, "solution shape and dtype", s=E.shape, d=str(E.dtype))
        El, Ml, el = E.astype(L), M.astype(L), e.astype(L)
        res = El - el * np.sin(El) - Ml
        tol = L(c["tol"] or 1e-6)
        # the step test |dE| <= tol leaves a residual far below 2*tol; rounding of E - e sin E - M
        lim = 2 * tol + K * L(cx.eps) * (np.abs(Ml) + 2)
        cx.close(res, np.zeros(4), lim, "elliptic Kepler equation residual", M=M.tolist(), e=e.tolist(), E=E.tolist(), tol=c["tol"])
        return bool((np.abs(M) > 1e-3).any() and (e > 1e-3).any())

    return strat, check


@leg("C02", "hypb")
def hypb(cx):
    strat = st.fixed_dictionaries(
        dict(x=st.lists(st.tuples(n_ang, e_hyp).map(list), min_size=4, max_size=4), tol=tols, b=st.booleans())
    )

    def check(cx, c):
        N = cx.a([x[0] for x in c["x"]])
        e = np.array([dtype_e(cx, x[1]) for x in c["x"]])
        H = solve4(cx, "solve_kepler_hypb", (N, e), c["tol"], c["b"])
        cx.true(H.shape == (4,) and H.dtype == cx.dt, "solution shape and dtype", s=H.shape, d=str(H.dtype))
        Hl, Nl, el = H.astype(L), N.astype(L), e.astype(L)
        with np.errstate(over="ignore"):
            res = el * np.sinh(Hl) - Hl - Nl
        tol = L(c["tol"] or 1e-6)
        Hr = np.arcsinh((np.abs(Nl) + 20) / el) + 1  # >= |true H|
        lim = 2 * tol + K * L(cx.eps) * ((np.abs(Nl) + Hr) * (1 + Hr) + el * 0)
        cx.close(res, np.zeros(4), lim, "hyperbolic Kepler equation residual", N=N.tolist(), e=e.tolist(), H=H.tolist(), tol=c["tol"])
        return bool((np.abs(N) > 1e-3).any())

    return strat, check


@leg("C02", "uni")
def uni(cx):
    strat = st.fixed_dictionaries(
        dict(
            x=st.lists(st.tuples(gen.orbit(cx.x64), gen.TOF).map(list), min_size=4, max_size=4),
            tol=tols, b=st.booleans(),
        )
    )

    def check(cx, c):
        rows = []
        for orb, t in c["x"]:
            r, v, mu = gen.state(cx, orb)
            r0, v0 = refs.norm(r), refs.norm(v)
            al = 2 / r0 - v0**2 / L(mu)
            if orb["e"] == 1.0:
                al = L(0)
            rows.append((gen.tof(cx, orb, t), cx.dt(al), cx.dt(r0), cx.dt(refs.dot(refs.ld(r), refs.ld(v)) / np.sqrt(L(mu))), mu))
        cols = [np.array(k, dtype=cx.dt) for k in zip(*rows)]
        chi = solve4(cx, "solve_kepler_uni", cols, c["tol"], c["b"])
        cx.true(chi.shape == (4,) and chi.dtype == cx.dt, "solution shape and dtype", s=chi.shape, d=str(chi.dtype))
        t, al, r0, s0, mu = (k.astype(L) for k in cols)
        T = np.sqrt(mu) * t
        ref = refs.solve_uni(T, al, r0, s0)
        u = refs.ufuncs(ref, al)
        R = r0 * u[0] + s0 * u[1] + u[2]
        x = 1 + np.sqrt(np.abs(al)) * np.abs(ref)
        noise = x * (np.abs(r0 * u[1]) + np.abs(s0 * u[2]) + np.abs(u[3]) + np.abs(T) + R * np.abs(ref))
        tol = L(c["tol"] or 1e-6)
        lim = 2 * tol + K * L(cx.eps) * noise
        # The residual's slope R varies within the slip; skip entries whose allowed slip is not
        # small against the orbit's time scale (then only finiteness is required).
        q = np.array([L(o["q"]) * (1 + L(o["e"])) for o, _ in c["x"]])
        ok = lim < 0.05 * q ** L(1.5)
        cx.true(np.isfinite(chi).all(), "finite generalized anomaly", args=[k.tolist() for k in cols], chi=chi.tolist())
        uu = refs.ufuncs(chi.astype(L), al)
        res = r0 * uu[1] + s0 * uu[2] + uu[3] - T
        cx.close(np.where(ok, res, 0), np.zeros(4), 2 * lim, "universal Kepler equation residual",
                 args=[k.tolist() for k in cols], chi=chi.tolist(), ref=ref.astype(float).tolist())
        return bool((ok & (t != 0)).any())

    return strat, check


@leg("C02", "equations")
def equations(cx):
    """Residuals, derivatives, mean anomalies and generalized anomaly against their definitions."""
    strat = st.fixed_dictionaries(
        dict(
            E=m_ang, ee=e_ell, M=m_ang, H=gen.f_(-20, 20), eh=e_hyp, N=n_ang,
            a=gen.logf(1e-3, 1e8 if cx.x64 else 1e4), mu=gen.mu_(cx.x64), orb=gen.orbit(cx.x64), t=gen.TOF,
            chi=gen.f_(-5, 5), dm=st.booleans(),
        )
    )

    def check(cx, c):
        eps = L(cx.eps)
        d = cx.dt
        E, M, H, N, a, mu = (d(c[k]) for k in ("E", "M", "H", "N", "a", "mu"))
        e, eh = dtype_e(cx, c["ee"]), dtype_e(cx, c["eh"])
        El, Ml, el, Hl, Nl, ehl, al, ml = (L(k) for k in (E, M, e, H, N, eh, a, mu))
        g = lambda n, *x: cx.call(cx.jit(n), *x, what=n)
        if c["dm"]:
            cx.close(g("kepler_equ_elps", E, e), El - el * np.sin(El), K * eps * (abs(El) + 1), "elliptic residual with M omitted", E=float(E), e=float(e))
            cx.close(g("kepler_equ_hypb", H, eh), ehl * np.sinh(Hl) - Hl, K * eps * (1 + abs(Hl)) * (ehl * np.cosh(Hl)), "hyperbolic residual with N omitted", H=float(H), e=float(eh))
        cx.close(g("kepler_equ_elps", E, e, M), El - el * np.sin(El) - Ml, K * eps * (abs(El) + abs(Ml) + 1), "elliptic Kepler function", E=float(E), e=float(e), M=float(M))
        cx.close(g("dE", E, e), 1 - el * np.cos(El), K * eps * (1 + abs(El)), "elliptic Kepler derivative", E=float(E), e=float(e))
        sc = ehl * np.cosh(Hl) * (1 + abs(Hl))
        cx.close(g("kepler_equ_hypb", H, eh, N), ehl * np.sinh(Hl) - Hl - Nl, K * eps * (sc + abs(Nl)), "hyperbolic Kepler function", H=float(H), e=float(eh), N=float(N))
        cx.close(g("dH", H, eh), ehl * np.cosh(Hl) - 1, K * eps * sc, "hyperbolic Kepler derivative", H=float(H), e=float(eh))
        # mean anomalies
        orb = c["orb"]
        r, v, muo = gen.state(cx, orb)
        t = gen.tof(cx, orb, c["t"])
        tl = L(t)
        n = np.sqrt(ml / al**3)
        cx.close(g("mean_anomaly_elps", a, t, mu), n * tl, K * eps * abs(n * tl), "mean anomaly (ellipse)", a=float(a), t=float(t), mu=float(mu))
        cx.close(g("mean_anomaly_hypb", -a, t, mu), n * tl, K * eps * abs(n * tl), "mean anomaly (hyperbola)", a=-float(a), t=float(t), mu=float(mu))
        if c["dm"]:
            n1 = 1 / np.sqrt(al**3)
            cx.close(g("mean_anomaly_elps", a, t), n1 * tl, K * eps * abs(n1 * tl), "mean anomaly (ellipse, mu omitted)", a=float(a), t=float(t))
            cx.close(g("mean_anomaly_hypb", -a, t), n1 * tl, K * eps * abs(n1 * tl), "mean anomaly (hyperbola, mu omitted)", a=-float(a), t=float(t))
        # generalized anomaly from both ends of a true arc equals the root of Kepler's equation
        arc = refs.Arc(t, r, v, muo)
        sg, s0, alf = d(arc.sigma), d(arc.s0), d(arc.alpha)
        want = L(alf) * arc.sm * tl + L(sg) - L(s0)
        scale = abs(L(alf) * arc.sm * tl) + abs(L(sg)) + abs(L(s0))
        cx.close(g("generalized_anomaly", alf, sg, s0, t, muo), want, K * eps * scale, "generalized anomaly", args=[float(k) for k in (alf, sg, s0, t, muo)])
        # and the universal Kepler function vanishes there (and nowhere near)
        chi = d(L(c["chi"]) * np.sqrt(arc.r0))
        xl = np.sqrt(abs(L(alf))) * abs(L(chi))
        if xl < 40:
            u = refs.ufuncs(chi, alf)
            r0 = d(arc.r0)
            want = L(r0) * u[1] + L(s0) * u[2] + u[3] - arc.sm * tl
            scale = abs(L(r0) * u[1]) + abs(L(s0) * u[2]) + abs(u[3]) + abs(arc.T) + (1 + xl) * (abs(L(r0) * L(chi) * u[0]) + abs(L(s0) * u[1] * L(chi)) + abs(u[2] * L(chi)))
            cx.close(g("kepler_equ_uni", chi, alf, r0, s0, t, muo), want, K * eps * scale * (1 + xl), "universal Kepler function", args=[float(k) for k in (chi, alf, r0, s0, t, muo)])
        return True

    return strat, check
