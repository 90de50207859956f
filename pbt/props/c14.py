"""C14: results are covariant under rotations, mirrors, change of units and time reversal.

Two evaluations of the code under test are related to each other; reference quantities only set
the allowed rounding.
"""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import odes
import refs
from refs import L, PI
from props import c01, c04, c06, c12

K = 32


def transform(x64, exact=None):
    """Orthogonal matrix, length and time factors, time reversal."""
    kl, kt = (12, 12) if x64 else (3, 3)
    pow_ = st.fixed_dictionaries(dict(o=st.integers(0, 23), m=st.booleans(), s=st.tuples(st.integers(-kl, kl), st.integers(-kt, kt)).map(lambda t: [2.0 * t[0], 1.0 * t[1]]), rev=st.booleans()))
    any_ = gen.uniforms(7).map(lambda u: dict(o=[6.3 * u[0], 3.15 * u[1], 6.3 * u[2]], m=u[3] > 0.5, s=[kl * (2 * u[4] - 1), kt * (2 * u[5] - 1)], rev=u[6] > 0.5))
    if exact is not None:
        return pow_ if exact else any_
    return st.one_of(pow_, any_)


class T:
    """A transformation of units and frame in the session dtype: r' = lam Q r, t' = +-tau t."""

    def __init__(self, cx, c):
        Q = gen.orient(c["o"])
        self.Q = -Q if c["m"] else Q
        self.det = -1 if c["m"] else 1
        self.lam, self.tau = L(2) ** L(c["s"][0]), L(2) ** L(c["s"][1])
        self.sg = -1 if c["rev"] else 1
        self.mu = self.lam**3 / self.tau**2
        self.vel = self.sg * self.lam / self.tau
        self.exact = isinstance(c["o"], int)
        self.cx = cx

    def r(self, x):
        return (self.lam * (refs.ld(x) @ self.Q.T)).astype(self.cx.dt)

    def v(self, x):
        return (self.vel * (refs.ld(x) @ self.Q.T)).astype(self.cx.dt)

    def t(self, x):
        return (self.sg * self.tau * refs.ld(x)).astype(self.cx.dt)

    def m(self, x):
        return self.cx.dt(self.mu * L(x))

    def S(self):
        """Matrix mapping (r, v) to (r', v')."""
        Z = np.zeros((3, 3), dtype=L)
        return np.block([[self.lam * self.Q, Z], [Z, self.vel * self.Q]])


@leg("C14", "kepler")
def kepler(cx):
    strat = st.fixed_dictionaries(dict(orb=gen.orbit(cx.x64), t=gen.TOF, tr=transform(cx.x64)))
    j = cx.jit("prop.kepler")

    def check(cx, c):
        d, eps = cx.dt, L(cx.eps)
        r, v, mu = gen.state(cx, c["orb"])
        t = gen.tof(cx, c["orb"], c["t"])
        X = T(cx, c["tr"])
        r2, v2, mu2, t2 = X.r(r), X.v(v), X.m(mu), X.t(t)
        info = dict(r=r.tolist(), v=v.tolist(), mu=float(mu), t=float(t), tr=c["tr"])
        (R1, V1), (R2, V2) = (cx.call(j, np.array([a]), b, e, f, what="kepler") for a, b, e, f in ((t, r, v, mu), (t2, r2, v2, mu2)))
        tol = []
        for a in ((t, r, v, mu), (t2, r2, v2, mu2)):
            arc = refs.Arc(np.array([a[0]]), *a[1:])
            tr, tv, _, _, slip = c01.tolerances(cx, arc)
            p = refs.norm(refs.cross(a[1], a[2])) ** 2 / L(a[3])
            if not (slip[0] * refs.norm(arc.v)[0] < 0.2 * arc.R[0] and slip[0] * arc.sm < 0.05 * p ** L(1.5)):
                return False
            tol.append((tr[0], tv[0]))
        lim_r = tol[0][0] * X.lam + tol[1][0]
        lim_v = tol[0][1] * abs(X.vel) + tol[1][1]
        if not X.exact:
            # the transformed inputs are rounded
            J = np.abs(refs.kepler_jac(t2, r2, v2, mu2))
            w = 4 * eps * np.array([refs.norm(refs.ld(r2))] * 3 + [refs.norm(refs.ld(v2))] * 3 + [abs(L(t2)), L(mu2)])
            dx = J @ w
            lim_r, lim_v = lim_r + dx[:3].max(), lim_v + dx[3:].max()
        cx.close(R2[0], X.lam * (X.Q @ refs.ld(R1[0])), np.full(3, lim_r), "position in the transformed frame and units", **info)
        cx.close(V2[0], X.vel * (X.Q @ refs.ld(V1[0])), np.full(3, lim_v), "velocity in the transformed frame and units", **info)
        # there and back again, when rounding has not been amplified too much
        (R0, V0) = cx.call(j, np.array([-t]), R1[0], V1[0], mu, what="kepler")
        back = refs.Arc(np.array([-t]), R1[0], V1[0], mu)
        tb = c01.tolerances(cx, back)
        Jb = np.abs(refs.kepler_jac(-t, R1[0], V1[0], mu))[:, :6]
        w = np.array([tol[0][0]] * 3 + [tol[0][1]] * 3)
        dx = Jb @ w
        if dx[:3].max() < 1e-2 * refs.norm(refs.ld(r)) and dx[3:].max() < 1e-2 * refs.norm(refs.ld(v)) and tb[4][0] * back.sm < 0.05 * (refs.norm(refs.cross(r, v)) ** 2 / L(mu)) ** L(1.5):
            cx.close(R0[0], r, np.full(3, 2 * (tb[0][0] + dx[:3].max())), "position after propagating there and back", **info)
            cx.close(V0[0], v, np.full(3, 2 * (tb[1][0] + dx[3:].max())), "velocity after propagating there and back", **info)
        return t != 0

    return strat, check


@leg("C14", "stm")
def stm(cx):
    """Transition matrices under exact transformations, reversal and composition of arcs."""
    strat = st.fixed_dictionaries(dict(orb=gen.orbit(cx.x64), t=gen.TOF, z=gen.unit, tr=transform(cx.x64, exact=True)))
    j = cx.jit("twobody.dxdx0")

    def bounds(b):
        f = lambda k: np.full((3, 3), b.tol[k])
        return np.block([[f("rr"), f("rv")], [f("vr"), f("vv")]])

    def check(cx, c):
        d = cx.dt
        r0, v0, mu, t, a = c06.arc(cx, c)
        if np.sqrt(abs(a.alpha)) * abs(a.chi) > (300 if cx.x64 else 28):
            return False
        r, v = a.r.astype(d), a.v.astype(d)
        X = T(cx, c["tr"])
        M1 = cx.call(j, r, v, r0, v0, t, mu, what="dxdx0")
        M2 = cx.call(j, X.r(r), X.v(v), X.r(r0), X.v(v0), X.t(t), X.m(mu), what="dxdx0")
        S = X.S()
        Si = np.linalg.inv(S.astype(float)).astype(L)  # exact: signed powers of two
        info = dict(r0=r0.tolist(), v0=v0.tolist(), t=float(t), mu=float(mu), tr=c["tr"])
        E = K * bounds(c06.Bound(cx, a))
        cx.close(M2, S @ M1.astype(L) @ Si, 2 * np.abs(S) @ E @ np.abs(Si), "transition matrix in the transformed frame and units", **info)
        # reversed arc: inverse matrix
        B = refs.Arc(-t, r, v, mu)
        B.ri, B.vi = refs.ld(r), refs.ld(v)
        Mb = cx.call(j, B.r.astype(d), B.v.astype(d), r, v, -t, mu, what="dxdx0").astype(L)
        Eb = K * bounds(c06.Bound(cx, B))
        A, Ab = np.abs(M1.astype(L)), np.abs(Mb)
        # the reversed arc ends near, not at, the start: second-order sensitivity of rounding is covered by the factor
        lim = Eb @ A + Ab @ E + Eb @ E
        n = np.array([refs.norm(refs.ld(r0))] * 3 + [refs.norm(refs.ld(v0))] * 3)
        rel = lim * n[None, :] / n[:, None]
        if rel.max() < 1e-2:
            cx.close(Mb @ M1.astype(L), np.eye(6), 4 * lim, "transition matrix of the reversed arc is the inverse", **info)
        # arcs in sequence multiply
        t1 = d(t * d(c["z"]))
        m = refs.Arc(t1, r0, v0, mu)
        m.ri, m.vi = refs.ld(r0), refs.ld(v0)
        rm, vm = m.r.astype(d), m.v.astype(d)
        s = refs.Arc(t - t1, rm, vm, mu)
        s.ri, s.vi = refs.ld(rm), refs.ld(vm)
        Ma = cx.call(j, rm, vm, r0, v0, t1, mu, what="dxdx0").astype(L)
        Mc = cx.call(j, s.r.astype(d), s.v.astype(d), rm, vm, d(t - t1), mu, what="dxdx0").astype(L)
        Ea, Ec = K * bounds(c06.Bound(cx, m)), K * bounds(c06.Bound(cx, s))
        lim = Ec @ np.abs(Ma) + np.abs(Mc) @ Ea + E
        rel = lim * n[None, :] / np.array([a.R] * 3 + [refs.norm(a.v)] * 3)[:, None]
        if rel.max() < 1e-2:
            cx.close(Mc @ Ma, M1.astype(L), 4 * lim, "transition matrices of consecutive arcs multiply", z=c["z"], **info)
        return bool(t != 0 and rel.max() < 1e-2)

    return strat, check


@leg("C14", "elements")
def elements(cx):
    strat = st.fixed_dictionaries(dict(orb=gen.orbit(cx.x64), tr=transform(cx.x64), a=gen.angle, zonly=st.booleans()))
    adx = cx.adx

    def everything(r, v, mu):
        n = cx.jnp.linalg.vector_norm
        h = adx.angular_momentum(r, v)
        e = adx.eccentricity_vector(r, v, mu)
        p, ecc, i, O, w, f = adx.rv2coe(r, v, mu)
        a = adx.semimajor_axis(n(r), n(v), mu)
        return dict(h=h, e=e, p=p, ecc=ecc, i=i, O=O, w=w, f=f, a=a, s=adx.twobody.sigma_fn(r, v, mu), rp=adx.radius_periapsis(p, ecc),
                    P=adx.orb_period(cx.jnp.abs(a), mu))

    j = cx.jax.jit(everything)

    def check(cx, c):
        d, eps = cx.dt, L(cx.eps)
        r, v, mu = gen.state(cx, c["orb"])
        tr = c["tr"]
        if c["zonly"]:
            tr = dict(tr, o=[c["a"], 0.0, 0.0], m=False)
        X = T(cx, tr)
        r2, v2, mu2 = X.r(r), X.v(v), X.m(mu)
        E = [c04.Err(cx, r, v, mu), c04.Err(cx, r2, v2, mu2)]
        if not (E[0].kap < 1e-3 and E[1].kap < 1e-3):
            return False
        A, B = (cx.call(j, *x, what="elements and integrals") for x in ((r, v, mu), (r2, v2, mu2)))
        info = dict(r=r.tolist(), v=v.tolist(), mu=float(mu), tr=tr)
        g = lambda k: (refs.ld(A[k]), B[k])
        nr, nv = E[0].r, E[0].v
        w = nr * nv**2 / L(mu)
        a, b = g("h")
        cx.close(b, X.lam * X.vel * X.det * (X.Q @ a), K * 2 * eps * nr * nv * X.lam * abs(X.vel), "angular momentum under the transformation", **info)
        a, b = g("e")
        cx.close(b, X.Q @ a, 2 * K * eps * (1 + w), "eccentricity vector under the transformation", **info)
        a, b = g("p")
        cx.close(b, X.lam * a, 2 * K * X.lam * E[0].p * E[0].ang, "semiparameter under the transformation", **info)
        a, b = g("rp")
        cx.close(b, X.lam * a, 2 * K * X.lam * a * (2 * E[0].ang + E[0].de), "periapsis radius under the transformation", **info)
        a, b = g("ecc")
        cx.close(b, a, 2 * K * E[0].de, "eccentricity under the transformation", **info)
        a, b = g("s")
        cx.close(b, X.sg * np.sqrt(X.lam) * a, 2 * K * eps * nr * nv / np.sqrt(L(mu)) * np.sqrt(X.lam), "sigma under the transformation", **info)
        inv, noise = 2 / nr - nv**2 / L(mu), 2 / nr + nv**2 / L(mu)
        if inv != 0 and K * noise / abs(inv) * eps < 0.01:
            rel = 2 * K * noise / abs(inv) * eps
            a, b = g("a")
            cx.close(b, X.lam * a, rel * X.lam * abs(a), "semimajor axis under the transformation", **info)
            a, b = g("P")
            cx.close(b, X.tau * a, 2 * rel * X.tau * abs(a), "period under the transformation", **info)
        # angles about the z axis
        hx = refs.cross(r2, v2)
        si = np.hypot(hx[0], hx[1]) / refs.norm(hx)
        hx1 = refs.cross(r, v)
        si = min(si, np.hypot(hx1[0], hx1[1]) / refs.norm(hx1))
        tO = 2 * K * E[0].ang / si if si > 0 else L(1)
        ecc = min(E[0].e, E[1].e)
        tE = 2 * K * E[0].de / ecc if ecc > 0 else L(1)
        hit = False
        if tE < 0.05:
            # true anomaly is a scalar; reversal mirrors it
            cx.close(refs.wrap(L(B["f"]) - X.sg * L(A["f"])), 0, tE + 2 * K * E[0].ang, "true anomaly under the transformation", **info)
            hit = True
        if c["zonly"]:
            flip = X.sg < 0
            cx.close(B["i"], PI - L(A["i"]) if flip else L(A["i"]), 2 * K * E[0].ang, "inclination under a rotation about the z axis", **info)
            if tO < 0.05:
                turn = L(c["a"]) + (PI if flip else 0)
                cx.close(refs.wrap(L(B["O"]) - L(A["O"]) - turn), 0, tO, "right ascension turns with the frame", **info)
                if tE < 0.05:
                    want = PI - L(A["w"]) if flip else L(A["w"])
                    cx.close(refs.wrap(L(B["w"]) - want), 0, tO + tE, "argument of periapsis under a rotation about the z axis", **info)
        return hit

    return strat, check


@leg("C14", "gravity")
def gravity(cx):
    names = {0: "point_mass_grav", 2: "j2_acc", 3: "j3_acc", 4: "j4_acc"}
    J = {n: cx.jit("gravity." + k) for n, k in names.items()}
    size = {0: 1, 2: 8, 3: 16, 4: 40}
    strat = st.fixed_dictionaries(dict(
        n=st.sampled_from([0, 2, 3, 4]), x=st.lists(gen.f_(-1, 1), min_size=3, max_size=3), s=gen.logf(1e-1, 1e3), v=st.lists(gen.f_(-2, 2), min_size=3, max_size=3),
        mu=gen.mu_(cx.x64), R=gen.logf(0.1, 10), j=gen.f_(-2, 2), tr=transform(cx.x64), a=gen.angle, flip=st.integers(0, 3), k=gen.f_(-3, 3)))

    def check(cx, c):
        d, eps = cx.dt, L(cx.eps)
        n = c["n"]
        x = cx.a(c["x"]) * d(c["s"])
        rho = refs.norm(refs.ld(x))
        if rho < 1e-3:
            return False
        tr = dict(c["tr"], rev=False)
        X = T(cx, tr)
        par = 1
        if n:
            # a zonal field keeps its axis: rotation about z, mirrors through the axis, half-turns and the equatorial mirror
            Q = refs.rot(2, c["a"])
            if c["flip"] & 1:
                Q = Q @ np.diag([L(1), L(-1), L(1)])
            if c["flip"] & 2:
                Q = Q @ np.diag([L(1), L(1), L(-1)])
                par = (-1) ** n
            X.Q = Q
        mu, Jn, R = d(c["mu"]), d(c["j"]), d(c["R"])
        v = cx.a(c["v"])
        mk = lambda mu, j, R: {"mu": mu} if n == 0 else {"mu": mu, f"J{n}": j, "R_eq": R}
        f = lambda x, v, mu, j, R, t: cx.call(J[n], d(t), np.concatenate([x, v]), mk(mu, j, R), what=names[n])
        a = refs.ld(f(x, v, mu, Jn, R, 0.0))
        acc = X.lam / X.tau**2
        b = f(X.r(x), X.v(v), X.m(mu), d(par * Jn), d(X.lam * L(R)), 7.0)
        mag = L(mu) * (abs(L(Jn)) * (L(R) / rho) ** n if n else 1) / rho**2 * size[n] * (n + 3)
        info = dict(x=x.tolist(), mu=float(mu), J=float(Jn), R=float(R), tr=tr, flip=c["flip"], a=c["a"])
        cx.close(b, acc * (X.Q @ a), np.full(3, K * eps * acc * mag), f"{names[n]} in the transformed frame and units", **info)
        # linear in mu and J
        k = d(c["k"])
        b = f(x, v, d(mu * abs(k)), Jn, R, 0.0)
        cx.close(b, abs(L(k)) * a, np.full(3, K * eps * mag * abs(L(k))), f"{names[n]} is proportional to mu", k=float(k), **info)
        if n:
            b = f(x, v, mu, d(Jn * k), R, 0.0)
            cx.close(b, L(k) * a, np.full(3, K * eps * mag * abs(L(k))), f"{names[n]} is proportional to its coefficient", k=float(k), **info)
        return bool(mag > 0)

    return strat, check


@leg("C14", "paths")
def paths(cx):
    names = ("is_short_way", "pass_perigee", "rp_islower_rmin", "nmax_by_periapsis")
    J = {n: cx.jit("twobody." + n) for n in names}
    strat = st.fixed_dictionaries(dict(arc=c12.arc(cx.x64), off=gen.f_(-1, 1), tof=gen.f_(0, 40), tr=transform(cx.x64)))

    def check(cx, c):
        d, eps = cx.dt, L(cx.eps)
        o = c["arc"]
        mu, e = d(o["mu"]), L(o["e"])
        f1 = gen.phase(e, o["u"])
        if e < 1:
            f2 = f1 + L(o["k"]) * 2 * PI
        else:
            f1, f2 = sorted([f1, gen.phase(e, o["w"])])
        th = f2 - f1
        r1, v1 = c12.point(o, f1, mu)
        r2, w2 = c12.point(o, f2, mu)
        r1, v1, r2, w2 = (k.astype(d) for k in (r1, v1, r2, w2))
        tr = dict(c["tr"], rev=False)
        X = T(cx, tr)
        info = dict(r1=r1.tolist(), v1=v1.tolist(), r2=r2.tolist(), mu=float(mu), tr=tr)
        g = lambda n, *a: cx.call(J[n], *a, what=n)
        R1, V1, R2, M = X.r(r1), X.v(v1), X.r(r2), X.m(mu)
        n1, nv = refs.norm(refs.ld(r1)), refs.norm(refs.ld(v1))
        h = refs.norm(refs.cross(r1, v1))
        k = 64 * eps * (1 + n1 * nv / h)
        de = 128 * eps * (1 + n1 * nv * nv / L(mu)) * (1 + n1 * nv / h)
        hit = False
        if abs(np.sin(th)) > k:
            hit = True
            cx.true(bool(g("is_short_way", r1, v1, r2)) == bool(g("is_short_way", R1, V1, R2)), "is_short_way does not depend on frame or units", **info)
            # run backwards from the end point it is the same arc
            n2, w = refs.norm(refs.ld(r2)), refs.norm(refs.ld(w2))
            k2 = 64 * eps * (1 + n2 * w / h)
            if abs(np.sin(th)) > k2:
                cx.true(bool(g("is_short_way", r1, v1, r2)) == bool(g("is_short_way", r2, -w2, r1)), "is_short_way of the reversed arc", **info)
            if e * min(abs(np.sin(f1)), abs(np.sin(f2))) > de + 64 * eps * e:
                P = bool(g("pass_perigee", r1, v1, r2, mu))
                cx.true(P == bool(g("pass_perigee", R1, V1, R2, M)), "pass_perigee does not depend on frame or units", **info)
                de2 = 128 * eps * (1 + n2 * w * w / L(mu)) * (1 + n2 * w / h)
                if abs(np.sin(th)) > k2 and e * min(abs(np.sin(f1)), abs(np.sin(f2))) > de2 + 64 * eps * e:
                    cx.true(P == bool(g("pass_perigee", r2, -w2, r1, mu)), "pass_perigee of the reversed arc", **info)
        q = L(o["q"])
        rmin = d(q * (1 + L(c["off"])))
        if abs(L(rmin) - q) > 2 * q * (c12.de_rel(eps, n1, nv, h, mu, q, e) + 8 * eps):
            a, b = g("rp_islower_rmin", rmin, r1, v1, mu), g("rp_islower_rmin", d(X.lam * L(rmin)), R1, V1, M)
            cx.true(bool(a) == bool(b), "rp_islower_rmin does not depend on frame or units", rmin=float(rmin), **info)
        ra, rb = d(n1), d(refs.norm(refs.ld(r2)))
        am = (max(L(ra), L(rb)) + L(rmin)) / 2
        tof = d(2 * PI * np.sqrt(am**3 / L(mu)) * L(c["tof"]))
        x = L(c["tof"])
        if abs(x - np.round(x)) > 64 * eps * (1 + x):
            a = g("nmax_by_periapsis", rmin, ra, rb, tof, mu)
            b = g("nmax_by_periapsis", *(d(X.lam * L(k)) for k in (rmin, ra, rb)), X.t(tof), M)
            cx.true(float(a) == float(b), "nmax_by_periapsis does not depend on units", a=float(a), b=float(b), tof=float(tof), rmin=float(rmin), **info)
            b = g("nmax_by_periapsis", rmin, rb, ra, tof, mu)
            cx.true(float(a) == float(b), "nmax_by_periapsis does not depend on the order of the points", a=float(a), b=float(b))
        return hit

    return strat, check


@leg("C14", "cowell")
def cowell(cx):
    """Numerical propagation in another frame, other units, and back in time."""
    import astrodynx.diffeq as dq

    prop = cx.adx.prop
    term = dq.ODETerm(odes.vector_field(cx))
    fin = lambda s: s.ys[-1]
    fixed = cx.jax.jit(lambda x, t, dt, a: (lambda s: (s.ts, s.ys))(prop.fixed_steps(prop.OrbDynx(term, a), x, t, dt, 256)))
    final = cx.jax.jit(lambda x, t, a: (lambda s: (s.ys[-1], s.stats["num_accepted_steps"]))(prop.to_final(prop.OrbDynx(term, a), x, t)))
    strat = st.fixed_dictionaries(dict(
        orb=odes.orbit(0.6), zon=gen.uniforms(4), on=st.sampled_from([0, 1, 2]), tr=transform(cx.x64), a=gen.angle, flip=st.booleans(), n=st.integers(4, 60)))

    def check(cx, c):
        d, eps = cx.dt, L(cx.eps)
        x0, mu, t1 = odes.initial(cx, c["orb"], 1.0)
        tr = dict(c["tr"], rev=False)
        X = T(cx, tr)
        p, p2 = {}, {}
        if c["on"]:
            u = [2 * k - 1 for k in c["zon"]]
            p = dict(J2=2e-2 * u[0], J3=5e-3 * u[1], J4=5e-3 * u[2], R_eq=0.3 + 0.7 * c["zon"][3])
            X.Q = refs.rot(2, c["a"])
            if c["flip"]:
                X.Q = X.Q @ np.diag([L(1), L(1), L(-1)])
            p2 = dict(p, J3=(-1 if c["flip"] else 1) * p["J3"], R_eq=float(X.lam * L(d(p["R_eq"]))))
        if not odes.regular(cx, x0, mu, p, t1):
            return False
        A, B = odes.lib_args(cx, mu, p), odes.lib_args(cx, X.m(mu), p2)
        y0 = np.concatenate([X.r(x0[:3]), X.v(x0[3:])])
        dt = d(float(t1) / c["n"] * 0.999)
        info = dict(x0=x0.tolist(), mu=float(mu), t1=float(t1), p=p, tr=tr, a=c["a"], flip=c["flip"], dt=float(dt))
        ta, ya = cx.call(fixed, x0, t1, dt, A, what="fixed_steps")
        tb, yb = cx.call(fixed, y0, X.t(t1), X.t(dt), B, what="fixed_steps")
        S = X.S()
        ka, kb = np.isfinite(ta), np.isfinite(tb)
        # rounding may add a step at the end
        cx.true(abs(int(ka.sum()) - int(kb.sum())) <= 1, "number of fixed steps does not depend on frame or units", here=int(ka.sum()), there=int(kb.sum()), **info)
        hit = False
        if ka.sum() == kb.sum() and np.isfinite(ya[ka]).all():
            ta, ya, tb, yb = ta[ka], ya[ka], tb[kb], yb[kb]
            cx.close(tb, X.tau * refs.ld(ta), 16 * eps * X.tau * L(t1), "times of fixed steps in other units", **info)
            # follow the rounding of the inputs through the discrete flow by a bound on its growth
            G = odes.growth(x0, mu, ta[-1:])[0]
            h = np.diff(ta).max()
            rr = refs.norm(ya[:, :3].astype(L)).min()
            if float(mu) * float(h) ** 2 < 0.3 * float(rr) ** 3 and G * eps < 1e-4 * (1 if cx.x64 else 1e2):
                want = refs.ld(ya) @ S.T
                sc = np.array([X.lam * np.abs(ya[:, :3]).max()] * 3 + [abs(X.vel) * np.abs(ya[:, 3:]).max()] * 3)
                nat = np.abs(ya[:, :3]).max() / np.abs(ya[:, 3:]).max()
                mix = (1 + nat + 1 / nat)
                cx.close(yb, want, 40 * eps * len(ta) * G * mix * np.broadcast_to(sc, want.shape), "fixed steps in the transformed frame and units", **info)
                hit = True
        # back in time: reverse the velocity at the end and propagate again
        yf, n1 = cx.call(final, x0, t1, A, what="to_final")
        z = np.concatenate([yf[:3], -yf[3:]])
        yr, n2 = cx.call(final, z, t1, A, what="to_final")
        back = np.concatenate([yr[:3], -yr[3:]])
        G = odes.growth(x0, mu, [float(t1)])[0] * (odes.growth(z, mu, [float(t1)])[0])
        sc = 1 + np.abs(x0).max() + np.abs(yf).max()
        lim = (L(1e-8) + 4 * eps) * (int(n1) + int(n2) + 10) * G * sc
        if lim < 0.05:
            cx.close(back, x0, np.full(6, lim), "propagating there and back", **info)
            hit = True
        return hit

    return strat, check
