"""C03: universal functions and Lagrange coefficients match their definitions."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import refs
from refs import L
from props.c01 import tolerances

K = 32


def both(s):
    return st.one_of(s, s.map(lambda x: -x))


def alphas(cx):
    lo, hi = (1e-20, 1e10) if cx.x64 else (1e-6, 1e6)
    return st.one_of(
        both(gen.logf(1e-2, 1e2)), both(gen.logf(1e-2, 1e2)), both(gen.logf(lo, hi)),
        both(gen.logf(1e-14, 1e-3) if cx.x64 else gen.logf(1e-6, 1e-2)),
        st.sampled_from([0.0, 1.0, -1.0, 0.25, -4.0]),
    )


def args(cx):
    """How chi is given: [0, x] means sqrt(|alpha|) chi = x; [1, y] means chi = y."""
    big = 300.0 if cx.x64 else 28.0
    return st.one_of(
        st.tuples(st.just(0), st.one_of(gen.f_(-7, 7), gen.f_(-2, 2), gen.f_(-big, big), both(gen.logf(1e-6, 1)),
                                        both(gen.f_(0.99, 1.01)))),
        st.tuples(st.just(1), st.one_of(both(gen.logf(1e-4, 1e3)), gen.f_(-5, 5), st.integers(-6, 6).map(float))),
    ).map(list)


def chis(cx, alpha, xs):
    big = 300.0 if cx.x64 else 28.0
    s = np.sqrt(abs(L(alpha)))
    out = []
    for k, x in xs:
        x = L(x)
        if k == 0:
            out.append(x / s if s > 0 else x)
        else:
            out.append(x if abs(x) * s < big else big / s)
    return np.array(out, dtype=L).astype(cx.dt)


def term_sizes(chi, alpha):
    """Sum of the absolute values of the closed form's terms, T_0..T_5; (6, n)."""
    s = np.sqrt(np.abs(alpha))
    x = s * np.abs(chi)
    w = np.cosh(x) if alpha < 0 else np.ones_like(x)
    with np.errstate(all="ignore"):
        return [w, w / s, (1 + w) / s**2, (x + w) / s**3, (x * x + 2 + 2 * w) / (2 * s**4), (x**3 + 6 * x + 6 * w) / (6 * s**5)]


@leg("C03", "ufuncs")
def ufuncs(cx):
    strat = st.fixed_dictionaries(dict(al=alphas(cx), xs=st.lists(args(cx), min_size=6, max_size=6), s=st.booleans()))
    jax = cx.jax
    fs = [cx.get(f"twobody.ufunc{n}") for n in range(6)]
    allu = lambda chi, al: [f(chi, al) for f in fs]

    def with_derivatives(chi, al):
        u, dc = jax.jvp(lambda c: allu(c, al), (chi,), (jax.numpy.ones_like(chi),))
        _, da = jax.jvp(lambda a: allu(chi, a), (al,), (jax.numpy.ones_like(al),))
        return u, dc, da

    j = jax.jit(with_derivatives)

    def check(cx, c):
        al = cx.dt(c["al"])
        chi = chis(cx, al, c["xs"])
        if c["s"]:
            u, dc, da = cx.call(j, chi[0], al, what="universal functions")
            chi = chi[:1]
            for k in u + dc + da:
                cx.true(k.shape == (), "universal function of a scalar is a scalar", shape=k.shape)
            u, dc, da = ([k[None] for k in y] for y in (u, dc, da))
        else:
            u, dc, da = cx.call(j, chi, al, what="universal functions")
        a, x = L(al), np.sqrt(abs(L(al))) * np.abs(chi.astype(L))
        cl = chi.astype(L)
        ref = refs.ufuncs(cl, a)
        # U6, U7 for the derivative with respect to alpha, from (x^n/n! - U_n) = alpha U_(n+2)
        psi = a * cl * cl
        hi = []
        for n in (6, 7):
            ser = np.ones_like(psi)
            for k in range(22, 0, -1):
                ser = 1 - np.where(np.abs(psi) < 6, psi, 0) * ser / ((n + 2 * k - 1) * (n + 2 * k))
            fact = L(720 if n == 6 else 5040)
            with np.errstate(all="ignore"):
                closed = (cl ** (n - 2) / L(24 if n == 6 else 120) - ref[n - 2]) / a
            hi.append(np.where(np.abs(psi) < 6, cl**n * ser / fact, closed))
        U = ref + hi
        T = term_sizes(cl, a)
        eps = L(cx.eps)
        small = x < 1 - 4 * eps
        info = dict(alpha=float(al), chi=chi.tolist())
        for n in range(6):
            cx.true(u[n].dtype == cx.dt, f"dtype of U{n}", dtype=str(u[n].dtype))
            tol = K * eps * np.where(small, np.abs(U[n]), (1 + x) * T[n] if a != 0 else 0)
            cx.close(u[n], U[n], tol, f"U{n}(chi, alpha)", **info)
            want = U[n - 1] if n else -a * U[1]
            tp = T[n - 1] if n else abs(a) * T[1]
            tol = K * eps * np.where(small, np.abs(want), (1 + x) * tp if a != 0 else 0)
            cx.close(dc[n], want, tol, f"dU{n}/dchi", **info)
            want = (n * U[n + 2] - cl * U[n + 1]) / 2
            with np.errstate(all="ignore"):
                far = (1 + x) * (n * T[n] + np.abs(cl) * tp) / abs(a)
            tol = K * eps * np.where(small, np.abs(n * U[n + 2]) + np.abs(cl * U[n + 1]), far if a != 0 else 0)
            cx.close(da[n], want, tol, f"dU{n}/dalpha", **info)
        return bool((np.abs(cl) > 0).any())

    return strat, check


@leg("C03", "lagrange")
def lagrange(cx):
    strat = st.fixed_dictionaries(dict(orb=gen.orbit(cx.x64), t=gen.TOF, d=st.booleans()))
    tb = cx.adx.twobody

    def composed(chi, al, r, v, mu):
        """The documented construction of the final state from the anomaly."""
        u = [getattr(tb, f"ufunc{n}")(chi, al) for n in range(3)]
        r0 = cx.jnp.linalg.vector_norm(r)
        s0 = tb.sigma_fn(r, v, mu)
        R = cx.adx.equ_of_orb_uvi(u[0], u[1], u[2], r0, s0[0])
        return (tb.lagrange_F(u[2], r0), tb.lagrange_G(u[1], u[2], s0[0], r0, mu),
                tb.lagrange_Ft(u[1], R, r0, mu), tb.lagrange_Gt(u[2], R), R, s0)

    jc = cx.jax.jit(composed)

    def check(cx, c):
        eps = L(cx.eps)
        orb = dict(c["orb"], mu=1.0) if c["d"] else c["orb"]
        r, v, mu = gen.state(cx, orb)
        t = gen.tof(cx, orb, c["t"])
        a = refs.Arc(t, r, v, mu)
        info = dict(r0=r.tolist(), v0=v.tolist(), mu=float(mu), t=float(t))
        # 1. the bare formulas on rounded inputs
        u0, u1, u2, r0, s0, R = (cx.dt(k) for k in (*a.U[:3], a.r0, a.s0, a.R))
        l0, l1, l2, lr0, ls0, lR, lm = (L(k) for k in (u0, u1, u2, r0, s0, R, mu))
        g = lambda n, *x: cx.call(cx.jit(n), *x, what=n)
        sm = np.sqrt(lm)
        cases = [
            ("twobody.lagrange_F", (u2, r0), 1 - l2 / lr0, 1 + abs(l2 / lr0)),
            ("twobody.lagrange_G", (u1, u2, s0, r0, mu), (lr0 * l1 + ls0 * l2) / sm, (abs(lr0 * l1) + abs(ls0 * l2)) / sm),
            ("twobody.lagrange_Ft", (u1, R, r0, mu), -sm / lR / lr0 * l1, abs(sm / lR / lr0 * l1)),
            ("twobody.lagrange_Gt", (u2, R), 1 - l2 / lR, 1 + abs(l2 / lR)),
            ("equ_of_orb_uvi", (u0, u1, u2, r0, s0), lr0 * l0 + ls0 * l1 + l2, abs(lr0 * l0) + abs(ls0 * l1) + abs(l2)),
            # omitted arguments mean r0 = 1, sigma0 = 0, mu = 1
            ("twobody.lagrange_F", (u2,), 1 - l2, 1 + abs(l2)),
            ("twobody.lagrange_G", (u1, u2), l1, abs(l1)),
            ("twobody.lagrange_G", (u1, u2, s0), l1 + ls0 * l2, abs(l1) + abs(ls0 * l2)),
            ("twobody.lagrange_G", (u1, u2, s0, r0), lr0 * l1 + ls0 * l2, abs(lr0 * l1) + abs(ls0 * l2)),
            ("twobody.lagrange_Ft", (u1, R), -l1 / lR, abs(l1 / lR)),
            ("twobody.lagrange_Ft", (u1, R, r0), -l1 / lR / lr0, abs(l1 / lR / lr0)),
        ]
        for n, x, want, sc in cases:
            cx.close(g(n, *x), want, K * eps * sc, f"{n} with {len(x)} arguments", args=[float(k) for k in x])
        dotp = refs.dot(refs.ld(r), refs.ld(v))
        sc = refs.dot(np.abs(refs.ld(r)), np.abs(refs.ld(v)))
        cx.close(g("twobody.sigma_fn", r, v, mu), [dotp / sm], K * eps * sc / sm, "sigma", **info)
        cx.close(g("twobody.sigma_fn", r, v), [dotp], K * eps * sc, "sigma with mu omitted", **info)
        # 2. composed: the anomaly maps the initial state to the point of the same orbit
        chi, al = cx.dt(a.chi), cx.dt(a.alpha)
        big = 300.0 if cx.x64 else 28.0
        if np.sqrt(abs(a.alpha)) * abs(a.chi) > big:
            return False
        F, G, Ft, Gt, Rg, sg = cx.call(jc, chi, al, r, v, mu, what="Lagrange coefficients")
        # reference at the rounded anomaly, exact alpha (its rounding is in the error bound)
        b = refs.Arc.__new__(refs.Arc)
        b.__dict__.update(a.__dict__)
        b.chi = L(chi)
        b.U = w = refs.ufuncs(b.chi, a.alpha)
        b.R = a.r0 * w[0] + a.s0 * w[1] + w[2]
        b.F, b.G = 1 - w[2] / a.r0, (a.r0 * w[1] + a.s0 * w[2]) / a.sm
        b.Ft, b.Gt = -a.sm / (b.R * a.r0) * w[1], 1 - w[2] / b.R
        b.v = b.Ft * refs.ld(r) + b.Gt * refs.ld(v)
        b.r = b.F * refs.ld(r) + b.G * refs.ld(v)
        _, _, tr, tv, _ = tolerances(cx, b)
        rr = L(F) * refs.ld(r) + L(G) * refs.ld(v)
        vv = L(Ft) * refs.ld(r) + L(Gt) * refs.ld(v)
        cx.close(rr, b.r, tr, "F r0 + G v0 is the position at this anomaly", chi=float(chi), **info)
        cx.close(vv, b.v, tv, "Ft r0 + Gt v0 is the velocity at this anomaly", chi=float(chi), **info)
        det = L(F) * L(Gt) - L(Ft) * L(G)
        h = refs.norm(refs.cross(r, v))
        nr, nv = refs.norm(b.r), refs.norm(b.v)
        td = K * (tr * nv + tv * nr) / h + K * eps * (1 + abs(b.F * b.Gt) + abs(b.Ft * b.G))
        cx.close(det, 1, td, "F Gt - Ft G = 1", chi=float(chi), **info)
        return bool(t != 0)

    return strat, check
