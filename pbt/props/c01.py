"""C01: the Kepler propagator follows the exact two-body orbit on every conic."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import refs
from refs import L

TOL = 2e-6  # twice the documented solver tolerance on sqrt(mu)*dt
K = 32  # multiple of the first-order rounding bound that is allowed


def tolerances(cx, a, tol=TOL):
    """Allowed errors (r, v, r without time slip, v without time slip, slip) for the arc a.

    First-order forward error analysis of the universal-variable formulation: rounding of the
    inputs (through alpha), of the universal functions, and of the final sums; plus the time slip
    that a residual of `tol` (or of the rounding of the residual) in Kepler's equation allows.
    """
    eps = L(cx.eps)
    dal = eps * (2 / a.r0 + a.v0**2 / a.mu)
    x = 1 + np.sqrt(np.abs(a.alpha)) * np.abs(a.chi)
    u = [np.abs(k) for k in a.U]
    chi = np.abs(a.chi)
    dU = []
    for n in range(4):
        prev = u[n - 1] if n else np.abs(a.alpha) * u[1]
        dU.append(dal * (n * u[n + 2] + chi * u[n + 1]) / 2 + eps * x * (u[n] + chi * prev))
    s0 = np.abs(a.s0)
    df = a.r0 * dU[1] + s0 * dU[2] + dU[3] + eps * a.residual_scale()
    slip = (tol + K * df) / a.sm
    dF = dU[2] / a.r0
    dG = (a.r0 * dU[1] + s0 * dU[2]) / a.sm
    dR = a.r0 * dU[0] + s0 * dU[1] + dU[2] + eps * (a.r0 * u[0] + s0 * u[1] + u[2])
    dFt = a.sm / (a.R * a.r0) * (dU[1] + u[1] * (dR / a.R + eps))
    dGt = dU[2] / a.R + u[2] / a.R * (dR / a.R + eps) + eps
    r0, v0 = a.r0, a.v0
    nr, nv = a.R, refs.norm(a.v)
    tr0 = K * (dF * r0 + dG * v0 + eps * (np.abs(a.F) * r0 + np.abs(a.G) * v0))
    tv0 = K * (dFt * r0 + dGt * v0 + eps * (np.abs(a.Ft) * r0 + np.abs(a.Gt) * v0))
    acc = a.mu / nr**2
    tr = slip * (nv + acc * slip) + tr0
    tv = slip * acc * (1 + nv * slip / nr) + tv0
    return tr, tv, tr0, tv0, slip


@leg("C01", "flow")
def flow(cx):
    strat = st.fixed_dictionaries(
        dict(orb=gen.orbit(cx.x64), ts=st.lists(gen.TOF, min_size=4, max_size=4))
    )

    def check(cx, c):
        r, v, mu = gen.state(cx, c["orb"])
        ts = np.array([gen.tof(cx, c["orb"], t) for t in c["ts"]], dtype=cx.dt)
        return check_arc(cx, r, v, mu, ts)

    return strat, check


@leg("C01", "eager")
def eager(cx):
    """Uncompiled calls, other numbers of times, scalar time, default mu, keyword arguments."""
    strat = st.fixed_dictionaries(
        dict(
            orb=gen.orbit(cx.x64),
            ts=st.lists(gen.TOF, min_size=1, max_size=9),
            form=st.sampled_from(["list", "scalar", "mu1", "kw"]),
        )
    )

    def check(cx, c):
        orb = dict(c["orb"])
        if c["form"] == "mu1":
            orb["mu"] = 1.0
        r, v, mu = gen.state(cx, orb)
        ts = np.array([gen.tof(cx, orb, t) for t in c["ts"]], dtype=cx.dt)
        f = cx.get("prop.kepler")
        if c["form"] == "scalar":
            ts = ts[:1]
            g = lambda ts, r, v, mu: f(float(ts[0]), r, v, mu)
        elif c["form"] == "mu1":
            g = lambda ts, r, v, mu: f(ts, r, v)
        elif c["form"] == "kw":
            g = lambda ts, r, v, mu: f(mu=mu, v0_vec=v, r0_vec=r, ts=ts)
        else:
            g = f
        return check_arc(cx, r, v, mu, ts, g)

    return strat, check


@leg("C01", "many")
def many(cx):
    """Other numbers of times in one compiled call, in any order, with repetitions."""
    strat = st.fixed_dictionaries(dict(orb=gen.orbit(cx.x64), ts=st.lists(gen.TOF, min_size=6, max_size=6), n=st.sampled_from([1, 2, 3, 17, 64, 130, 1000]), k=st.integers(1, 10**6)))

    def check(cx, c):
        r, v, mu = gen.state(cx, c["orb"])
        base = np.array([gen.tof(cx, c["orb"], t) for t in c["ts"]], dtype=cx.dt)
        i = np.arange(c["n"])
        # times between and at the generated ones, scattered
        ts = (base[(i * c["k"]) % 6] * (1 - (i // 6) / (c["n"] / 6 + 1))).astype(cx.dt)
        return check_arc(cx, r, v, mu, ts)

    return strat, check


# Exactly representable special states: exact parabola (alpha = 0 in floating point), exact
# circle, exact apsides, one-axis motion.
SPECIAL = [
    ([2.0, 0, 0], [0, 1.0, 0], 1.0),
    ([0, 2.0, 0], [0, 0, -1.0], 1.0),
    ([8.0, 0, 0], [0.3, 0.4, 0], 1.0),
    ([2.0, 0, 0], [0.6, 0.8, 0], 1.0),
    ([2.0, 0, 0], [-0.6, 0.8, 0], 1.0),
    ([4.0, 0, 0], [0, 2.0, 0], 8.0),
    ([1.0, 0, 0], [0, 1.0, 0], 1.0),
    ([0, 0, 1.0], [1.0, 0, 0], 1.0),
    ([4.0, 0, 0], [0, 0.5, 0], 1.0),
    ([1.0, 0, 0], [0, 1.25, 0], 1.0),
    ([1.0, 0, 0], [0, 2.0, 0], 1.0),
    ([1.0, 0, 0], [0, 0.5, 0], 1.0),
    ([1.0, 0, 0], [0, 2.0**0.5, 0], 1.0),
    ([1.0, 1.0, 0], [-1.0, 1.0, 0], 1.0),
]


@leg("C01", "special")
def special(cx):
    strat = st.fixed_dictionaries(
        dict(
            k=st.integers(0, len(SPECIAL) - 1),
            o=st.integers(0, 23),
            s=st.integers(-3, 3),
            ts=st.lists(st.one_of(gen.f_(-100, 100), gen.logf(1e-6, 1e4), st.integers(-20, 20).map(float)), min_size=4, max_size=4),
        )
    )

    def check(cx, c):
        r, v, mu = SPECIAL[c["k"]]
        m = gen.CUBE[c["o"]]
        s = 4.0 ** c["s"]  # length x s, mu x s keeps velocities: exact scaling
        r, v, mu = cx.a(m @ np.array(r) * s), cx.a(m @ np.array(v)), cx.dt(mu * s)
        return check_arc(cx, r, v, mu, cx.a(c["ts"]))

    return strat, check


def check_arc(cx, r, v, mu, ts, f=None):
    R, V = cx.call(f or cx.jit("prop.kepler"), ts, r, v, mu, what="kepler")
    a = refs.Arc(ts, r, v, mu)
    tr, tv, tr0, tv0, slip = tolerances(cx, a)
    h0 = refs.cross(r, v)
    p = refs.norm(h0) ** 2 / L(mu)
    # A permitted time slip comparable with the orbit's own time scale (tiny orbits) makes the
    # entry meaningless; it is not compared.
    ok = (slip * refs.norm(a.v) < 0.2 * a.R) & (slip * a.sm < 0.05 * p ** L(1.5))
    info = dict(r0=r.tolist(), v0=v.tolist(), mu=float(mu), t=ts.tolist())
    cx.true(R.shape == (len(ts), 3) and V.shape == (len(ts), 3), "kepler output shape", R=R.shape, V=V.shape)
    cx.true(R.dtype == cx.dt and V.dtype == cx.dt, "kepler output dtype", R=str(R.dtype), V=str(V.dtype))
    o = ok[:, None]
    cx.close(np.where(o, R, a.r), a.r, tr[:, None], "position after propagation", **info)
    cx.close(np.where(o, V, a.v), a.v, tv[:, None], "velocity after propagation", **info)
    # Invariants, to rounding: they do not depend on where on the orbit the point lies.
    Rl, Vl = R.astype(L), V.astype(L)
    nr, nv = a.R, refs.norm(a.v)
    pos2 = tr0 + slip * nv
    h = refs.cross(Rl, Vl)
    th = K * (tr0 * nv + tv0 * nr) + K * L(cx.eps) * (a.r0 * a.v0 + nr * nv)
    cx.close(np.where(o, h, h0), np.broadcast_to(h0, h.shape), th[:, None], "angular momentum conserved", **info)
    m = L(mu)
    en = refs.dot(Vl, Vl) / 2 - m / refs.norm(Rl)
    en0 = a.v0**2 / 2 - m / a.r0
    te = K * (tv0 * nv + m / nr**2 * tr0) + K * L(cx.eps) * (a.v0**2 + m / a.r0 + nv**2 + m / nr)
    cx.close(np.where(ok, en, en0), np.broadcast_to(en0, en.shape), te, "energy conserved", **info)
    ev = refs.cross(Vl, h) / m - Rl / refs.norm(Rl)[:, None]
    ev0 = refs.cross(refs.ld(v), h0) / m - refs.ld(r) / a.r0
    tev = (th * nv + tv0 * refs.norm(h0)) / m * K + K * tr0 / nr + K * L(cx.eps) * (1 + nv * refs.norm(h0) / m + a.v0 * refs.norm(h0) / m)
    cx.close(np.where(o, ev, ev0), np.broadcast_to(ev0, ev.shape), tev[:, None], "eccentricity vector conserved", **info)
    return bool((ok & (ts != 0)).any())
