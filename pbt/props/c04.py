"""C04: state vectors and classical elements convert into each other losslessly."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import refs
from refs import L, PI

K = 32


class Err:
    """First-order rounding bounds of the conversion at a state."""

    def __init__(self, cx, r, v, mu):
        eps = L(cx.eps)
        r, v, mu = refs.ld(r), refs.ld(v), L(mu)
        self.r, self.v = refs.norm(r), refs.norm(v)
        h = refs.norm(refs.cross(r, v))
        self.p = h * h / mu
        self.kap = eps * self.r * self.v / h  # direction of the orbit normal
        self.de = eps * (2 + self.r * self.v**2 / mu)  # eccentricity vector
        self.e = refs.norm(refs.cross(v, refs.cross(r, v)) / mu - r / self.r)
        self.ang = 10 * eps + self.kap
        self.tr = K * self.r * (self.ang + self.r / self.p * (self.de + self.e * self.ang))
        self.tv = K * (np.sqrt(mu / self.p) * (self.de + (1 + self.e) * self.ang) + self.v * self.ang)


def angle_range(cx, x, hi, what, **info):
    cx.true(np.all((x >= 0) & (x <= cx.dt(hi))), f"{what} lies in its range", value=np.asarray(x).tolist(), **info)


@leg("C04", "state")
def state(cx):
    """state -> elements: right elements; -> state: same state."""
    strat = st.fixed_dictionaries(dict(orb=gen.orbit(cx.x64), d=st.booleans(), z=st.integers(0, 9)))

    def trip(r, v, mu):
        el = cx.adx.rv2coe(r, v, mu)
        return el, cx.adx.coe2rv(*el, mu)

    j = cx.jax.jit(trip)
    jd = cx.jax.jit(lambda r, v: (lambda el: (el, cx.adx.coe2rv(*el)))(cx.adx.rv2coe(r, v)))

    def check(cx, c):
        orb = dict(c["orb"], mu=1.0) if c["d"] else c["orb"]
        r, v, mu = gen.state(cx, orb)
        if c["z"] == 0:  # exactly equatorial
            r, v = r.copy(), v.copy()
            r[2] = v[2] = 0
        E = Err(cx, r, v, mu)
        # a nearly rectilinear state (after flattening) has no well defined elements
        if not E.kap < 1e-2:
            return False
        info = dict(r=r.tolist(), v=v.tolist(), mu=float(mu))
        if c["d"]:
            el, (r2, v2) = cx.call(jd, r, v, what="rv2coe/coe2rv without mu")
        else:
            el, (r2, v2) = cx.call(j, r, v, mu, what="rv2coe/coe2rv")
        p, e, i, O, w, f = el
        for k, n in zip(el, ("p", "e", "incl", "raan", "argp", "true_anom")):
            cx.true(k.shape == () and k.dtype == cx.dt, f"{n}: shape and dtype", shape=k.shape, dtype=str(k.dtype))
        ref = refs.elements(r, v, mu)
        cx.close(p, ref[0], K * E.p * E.ang, "semiparameter", **info)
        cx.close(e, ref[1], K * E.de, "eccentricity", **info)
        cx.close(i, ref[2], K * E.ang, "inclination", **info)
        angle_range(cx, i, np.pi, "inclination", **info)
        for k, n in ((O, "raan"), (w, "argp"), (f, "true anomaly")):
            angle_range(cx, k, 2 * np.pi, n, **info)
        si = abs(np.sin(ref[2]))
        flat = refs.norm(refs.cross(r, v)[:2]) == 0
        tO = E.ang / si if si > 0 else L(1)
        if flat:
            tO = L(1)  # no node: only the round trip can be judged
        tE = E.de / ref[1] if ref[1] > 0 else L(1)
        if K * tO < 0.1:
            cx.close(refs.wrap(L(O) - ref[3]), 0, K * (tO + E.ang), "right ascension of the node", **info)
        if K * tE < 0.1:
            cx.close(refs.wrap(L(f) - ref[5]), 0, K * (tE + E.ang), "true anomaly", **info)
            if K * tO < 0.1:
                cx.close(refs.wrap(L(w) - ref[4]), 0, K * (tE + tO + E.ang), "argument of periapsis", **info)
        elif K * tO < 0.1:
            # circular: only the argument of latitude is defined
            cx.close(refs.wrap(L(w) + L(f) - ref[4] - ref[5]), 0, K * (tO + E.ang), "argument of latitude", **info)
        if E.tr < 0.05 * E.r:
            cx.close(r2, r, E.tr, "position after the round trip", elements=[float(k) for k in el], **info)
            cx.close(v2, v, E.tv, "velocity after the round trip", elements=[float(k) for k in el], **info)
            return True
        return False

    return strat, check


any_angle = st.one_of(gen.angle, gen.f_(-50, 50), gen.f_(-7, 7))


def elements_strategy(x64):
    return st.fixed_dictionaries(
        dict(
            p=gen.q_(x64), e=gen.ECC, i=st.one_of(gen.f_(0, np.pi), st.sampled_from([0.0, np.pi / 2, np.pi]), any_angle),
            O=any_angle, w=any_angle, f=any_angle, mu=gen.mu_(x64), d=st.booleans(),
        )
    )


@leg("C04", "elements")
def elements(cx):
    """elements -> state: the point on the described conic; -> elements: the same elements."""
    strat = elements_strategy(cx.x64)
    j = cx.jax.jit(lambda *a: (lambda x: (x, cx.adx.rv2coe(*x, a[-1])))(cx.adx.coe2rv(*a)))
    jd = cx.jit("coe2rv")

    def check(cx, c):
        d = cx.dt
        p, e, i, O, w, f, mu = (d(c[k]) for k in ("p", "e", "i", "O", "w", "f", "mu"))
        den = 1 + L(e) * np.cos(L(f))
        if den < 0.02:
            return False
        eps = L(cx.eps)
        info = dict(elements=[float(k) for k in (p, e, i, O, w, f)], mu=float(mu))
        (r, v), el = cx.call(j, p, e, i, O, w, f, mu, what="coe2rv")
        R, V = refs.coe_state(p, e, i, O, w, f, mu)
        nr, nv, s = refs.norm(R), refs.norm(V), np.sqrt(L(mu) / L(p))
        cx.close(r, R, K * eps * nr * (1 + (1 + L(e)) / den), "position on the conic", **info)
        cx.close(v, V, K * eps * s * (1 + L(e)), "velocity on the conic", **info)
        if c["d"]:
            r1, v1 = cx.call(jd, p, e, i, O, w, f, what="coe2rv without mu")
            cx.close(r1, R, K * eps * nr * (1 + (1 + L(e)) / den), "position on the conic (mu omitted)", **info)
            cx.close(v1, V / np.sqrt(L(mu)), K * eps * s * (1 + L(e)) / np.sqrt(L(mu)), "velocity on the conic (mu omitted)", **info)
        # back: regular elements only
        E = Err(cx, r, v, mu)
        tin = (1 + (1 + L(e)) / den) * eps * (1 + L(e))  # rounding of the intermediate state
        ang = E.ang + tin * E.kap / eps
        de = E.de + tin * E.de / eps
        si = np.sin(L(i))
        if not (0 <= i <= np.pi) or K * ang > 0.01:
            return True
        cx.close(el[0], L(p), K * L(p) * ang, "semiparameter after the round trip", **info)
        cx.close(el[1], L(e), K * de, "eccentricity after the round trip", **info)
        cx.close(el[2], L(i), K * ang, "inclination after the round trip", **info)
        tO, tE = ang / max(abs(si), L(1e-30)), de / max(L(e), L(1e-30))
        tot = K * (tO + tE)
        if tot > 0.1:
            return True
        for k, x, t, n in ((3, O, tO, "raan"), (4, w, tO + tE, "argp"), (5, f, tE, "true anomaly")):
            cx.close(refs.wrap(L(el[k]) - L(x)), 0, K * (t + ang), f"{n} after the round trip", **info)
            angle_range(cx, el[k], 2 * np.pi, n, **info)
        return True

    return strat, check


vec3 = st.one_of(
    st.lists(st.one_of(gen.f_(-10, 10), st.sampled_from([0.0, 1.0, -1.0])), min_size=3, max_size=3),
    st.tuples(gen.uniforms(3), gen.logf(1e-6, 1e6)).map(lambda t: [float((2 * x - 1) * t[1]) for x in t[0]]),
)


@leg("C04", "angles")
def angles(cx):
    """The public angle functions are the documented geometric angles, for any vectors."""
    strat = st.fixed_dictionaries(dict(a=vec3, b=vec3))

    def check(cx, c):
        a, b = cx.a(c["a"]), cx.a(c["b"])
        na, nb = refs.norm(a), refs.norm(b)
        if na < 1e-9 or nb < 1e-9:
            return False
        eps = L(cx.eps)
        al, bl = refs.ld(a), refs.ld(b)
        g = lambda n, *x: cx.call(cx.jit(n), *x, what=n)
        want = np.arctan2(np.hypot(al[0], al[1]), al[2])
        i = g("inclination", a)
        cx.close(i, [want], K * eps * 4, "inclination of an angular momentum vector", h=a.tolist())
        angle_range(cx, i, np.pi, "inclination", h=a.tolist())
        if np.hypot(al[0], al[1]) > 1e-9:
            n = np.array([a[0], a[1], 0], dtype=cx.dt)
            for node in (n, a):
                O = g("right_ascension", node)
                cx.true(O.shape == (1,), "right_ascension shape", shape=O.shape)
                cx.close(refs.wrap(O.astype(L) - np.arctan2(al[1], al[0])), [0], K * eps * 4, "right ascension of a node vector", node=node.tolist())
                angle_range(cx, O, 2 * np.pi, "right ascension", node=node.tolist())
        between = np.arctan2(refs.norm(refs.cross(a, b)), refs.dot(al, bl))
        for n in ("argument_of_periapsis", "true_anomaly"):
            x = g(n, a, b)
            cx.close(x, [between], K * eps * 4, f"{n} is the angle between its vectors", a=a.tolist(), b=b.tolist())
            angle_range(cx, x, np.pi, n, a=a.tolist(), b=b.tolist())
        return True

    return strat, check
