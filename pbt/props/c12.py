"""C12: path predicates describe the geometry of the transfer arc."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import refs
from refs import L, PI


def point(c, f, mu):
    q, e = L(c["q"]), L(c["e"])
    p = q * (1 + e)
    cf, sf = np.cos(f), np.sin(f)
    r = p / (1 + e * cf) * np.array([cf, sf, 0], dtype=L)
    v = np.sqrt(L(mu) / p) * np.array([-sf, e + cf, 0], dtype=L)
    m = gen.orient(c["o"])
    return m @ r, m @ v


def arc(x64):
    return st.tuples(gen.orbit(x64), gen.unit, gen.signed).map(lambda t: dict(t[0], k=t[1], w=t[2]))


@leg("C12", "arc")
def arc_leg(cx):
    """is_short_way, pass_perigee and rp_islower_rmin against the anomalies the arc was built from."""
    J = {n: cx.jit("twobody." + n) for n in ("is_short_way", "pass_perigee", "rp_islower_rmin")}
    strat = st.tuples(arc(cx.x64), st.one_of(gen.f_(-1, 1), gen.f_(-0.01, 0.01), gen.logf(1e-6, 1)), st.sampled_from(["jit", "jit", "jit", "jit", "jit", "eager"])).map(list)

    def check(cx, c):
        c, off, form = c
        d, eps = cx.dt, L(cx.eps)
        mu = d(c["mu"])
        e = L(c["e"])
        f1 = gen.phase(e, c["u"])
        if e < 1:
            th = L(c["k"]) * 2 * PI
            f2 = f1 + th
        else:
            f2 = gen.phase(e, c["w"])
            if f2 <= f1:
                f1, f2 = f2, f1
            th = f2 - f1
        r1, v1 = point(c, f1, mu)
        r2, _ = point(c, f2, mu)
        R1, V1, R2 = (k.astype(d) for k in (r1, v1, r2))
        F = {n: (cx.get("twobody." + n) if form == "eager" else J[n]) for n in J}
        info = dict(r1=R1.tolist(), v1=V1.tolist(), r2=R2.tolist(), mu=float(mu), f1=float(f1), transfer=float(th), e=float(e))
        n1, n2, nv = refs.norm(refs.ld(R1)), refs.norm(refs.ld(R2)), refs.norm(refs.ld(V1))
        h = refs.norm(refs.cross(refs.ld(R1), refs.ld(V1)))
        # rounding of the inputs tilts and turns the three vectors by this much
        k = 32 * eps * (1 + n1 * nv / h)
        hit = False
        if abs(np.sin(th)) > k and 0 < th < 2 * PI:
            got = cx.call(F["is_short_way"], R1, V1, R2, what="is_short_way")
            cx.true(got.dtype == bool and got.shape == (), "is_short_way returns one boolean", dtype=str(got.dtype), shape=got.shape)
            cx.true(bool(got) == bool(th < PI), "is_short_way is true exactly for transfer angles below 180 degrees", got=bool(got), **info)
            hit = True
            # the eccentricity vector is known to this much
            de = 64 * eps * (1 + n1 * nv * nv / L(mu)) * (1 + n1 * nv / h)
            if e * abs(np.sin(f1)) > de + 32 * eps * e and e * abs(np.sin(f2)) > de + 32 * eps * e:
                turn = f1 % (2 * PI)
                want = bool(turn + th > 2 * PI)
                if e >= 1:
                    want = bool(f1 < 0 < f2)
                got = cx.call(F["pass_perigee"], R1, V1, R2, mu, what="pass_perigee")
                cx.true(got.dtype == bool and got.shape == (), "pass_perigee returns one boolean", dtype=str(got.dtype), shape=got.shape)
                cx.true(bool(got) == want, "pass_perigee is true exactly when the arc contains the periapsis", got=bool(got), expected=want, **info)
                if float(mu) == 1.0:
                    got = cx.call(F["pass_perigee"], R1, V1, R2, what="pass_perigee")
                    cx.true(bool(got) == want, "pass_perigee with the default mu", got=bool(got), expected=want, **info)
        q = L(c["q"])
        rmin = d(q * (1 + L(off)))
        # periapsis from rounded r, v: p/(1+e), both with the error of e and h
        tol = q * (de_rel(eps, n1, nv, h, mu, q, e) + 8 * eps)
        gap = L(rmin) - q
        if abs(gap) > tol:
            got = cx.call(F["rp_islower_rmin"], rmin, R1, V1, mu, what="rp_islower_rmin")
            cx.true(got.dtype == bool and got.shape == (), "rp_islower_rmin returns one boolean", dtype=str(got.dtype), shape=got.shape)
            cx.true(bool(got) == bool(gap > 0), "rp_islower_rmin is true exactly when the periapsis is below the limit", got=bool(got), rp=float(q), rmin=float(rmin), **info)
            if float(mu) == 1.0:
                got = cx.call(F["rp_islower_rmin"], rmin, R1, V1, what="rp_islower_rmin")
                cx.true(bool(got) == bool(gap > 0), "rp_islower_rmin with the default mu", got=bool(got), rp=float(q), rmin=float(rmin), **info)
        return hit

    return strat, check


def de_rel(eps, r, v, h, mu, q, e):
    """Relative error of p/(1+e) computed from rounded r and v."""
    k = r * v * v / L(mu)
    # p = h^2/mu loses r v / h in the cross product; e loses 1 + k
    return 64 * eps * (1 + r * v / h) + 64 * eps * (1 + k) * (1 + r * v / h) / (1 + e)


@leg("C12", "nmax")
def nmax(cx):
    """nmax_by_periapsis: the whole number of periods of the smallest admissible ellipse."""
    jf = cx.jit("twobody.nmax_by_periapsis")
    ff = cx.get("twobody.nmax_by_periapsis")
    big = gen.logf(1e-1, 1e8) if cx.x64 else gen.logf(1e-1, 1e4)
    strat = st.fixed_dictionaries(dict(
        rp=big, e=gen.f_(0, 0.95), u=gen.signed, w=gen.signed, s=gen.f_(0, 1), mu=gen.mu_(cx.x64), revs=st.one_of(gen.f_(0, 4), gen.f_(0, 60)),
        form=st.sampled_from(["jit", "jit", "jit", "jit", "eager", "defaults"]), rmin=gen.f_(0, 1),
        # a time of flight next to a whole number of periods of the smallest ellipse
        near=st.one_of(st.just(0.0), gen.logf(1e-13, 1e-2), gen.logf(1e-13, 1e-2).map(lambda k: -k)),
    ))

    def check(cx, c):
        d, eps = cx.dt, L(cx.eps)
        mu = d(c["mu"])
        q, e = L(c["rp"]), L(c["e"])
        a = q / (1 - e)
        ra = lambda u: q * (1 + e) / (1 + e * np.cos(L(u) * PI))
        r1, r2 = d(ra(c["u"])), d(ra(c["w"]))
        rmin = d(q * L(c["rmin"]))
        P = 2 * PI * np.sqrt(a**3 / L(mu))
        tof = d(P * L(c["revs"]))
        if c["near"]:
            tof = d((max(np.ceil(L(c["revs"])), 1) + L(c["near"])) * 2 * PI * np.sqrt(((max(L(r1), L(r2)) + L(rmin)) / 2) ** 3 / L(mu)))
        if c["form"] == "defaults":
            # documented defaults, one argument given at a time
            k = ["rp_min", "r1", "r2", "tof", "mu"][int(c["s"] * 4.999)]
            kw = dict(rp_min=0.97, r1=1.0, r2=1.0, tof=float(d(np.pi)), mu=1.0)
            val = float(d({"rp_min": c["rmin"] + 1e-3, "r1": 0.3 + 5 * c["e"], "r2": 0.3 + 5 * c["e"], "tof": c["revs"] * 6.0, "mu": 10.0 ** (4 * c["e"])}[k]))
            kw[k] = val
            got = cx.call(ff, **{k: d(val)}, what="nmax_by_periapsis")
            rmin, r1, r2, tof, mu = (L(kw[i]) for i in ("rp_min", "r1", "r2", "tof", "mu"))
        else:
            got = cx.call(ff if c["form"] == "eager" else jf, rmin, r1, r2, tof, mu, what="nmax_by_periapsis")
        cx.true(got.shape == () and got.dtype.kind == "f", "nmax_by_periapsis returns one number", shape=got.shape, dtype=str(got.dtype))
        amin = (max(L(r1), L(r2)) + L(rmin)) / 2
        x = L(tof) / (2 * PI) * np.sqrt(L(mu) / amin**3)
        info = dict(rp_min=float(rmin), r1=float(r1), r2=float(r2), tof=float(tof), mu=float(mu), periods=float(x))
        slack = 16 * eps * (1 + x)
        lo, hi = np.floor(x - slack), np.floor(x + slack)
        lo = max(lo, 0)
        cx.true(lo <= float(got) <= hi and float(got) == np.floor(float(got)), "nmax_by_periapsis is the whole number of periods of the smallest ellipse that fit", got=float(got), **info)
        if c["form"] != "defaults":
            n = np.floor(L(tof) / P * (1 - 32 * eps))  # whole revolutions of this admissible orbit
            cx.true(n <= float(got), "nmax_by_periapsis is never exceeded by an admissible orbit", revolutions=float(n), got=float(got), **info)
        return float(got) > 0

    return strat, check


@leg("C12", "ties")
def ties(cx):
    """Exactly opposite points are not below 180 degrees; a periapsis exactly at the limit is not below it."""
    J = {n: (cx.get("twobody." + n), cx.jit("twobody." + n)) for n in ("is_short_way", "rp_islower_rmin")}
    small = st.lists(st.integers(-7, 7), min_size=3, max_size=3)
    strat = st.fixed_dictionaries(dict(r=small, v=small, k=st.sampled_from([1, 1, 2, 3, 0.5]), s=st.integers(-8, 8), m=st.integers(0, 2), ax=st.permutations([0, 1, 2]), neg=st.booleans(), jit=st.booleans()))

    def check(cx, c):
        r, v = np.array(c["r"], float), np.array(c["v"], float)
        sh, rp = (J[n][c["jit"]] for n in ("is_short_way", "rp_islower_rmin"))
        # one circular orbit: every number is a power of two
        q, w = 2.0 ** (2 * c["m"]), 2.0 ** c["s"]
        R, V = np.zeros(3), np.zeros(3)
        R[c["ax"][0]], V[c["ax"][1]] = (-q if c["neg"] else q), w
        mu = q * w * w
        args = [cx.a(R), cx.a(V), cx.dt(mu)]
        cx.true(not cx.call(rp, cx.dt(q), *args), "rp_islower_rmin: a periapsis at the limit is not below it", r=R.tolist(), v=V.tolist(), mu=mu, rmin=q)
        cx.true(bool(cx.call(rp, cx.dt(q * 1.001), *args)) and not cx.call(rp, cx.dt(q * 0.999), *args), "rp_islower_rmin: just above and below the limit", r=R.tolist(), v=V.tolist(), mu=mu, rmin=q)
        if not np.cross(r, v).any():
            return False
        # small whole numbers: every product and sum is exact
        got = cx.call(sh, cx.a(r), cx.a(v), cx.a(-c["k"] * r), what="is_short_way")
        cx.true(not got, "is_short_way: a transfer of 180 degrees is not below 180 degrees", r1=c["r"], v1=c["v"], r2=(-c["k"] * r).tolist())
        return True

    return strat, check
