"""C05: orbital integrals equal their physical definitions and are mutually consistent."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import refs
from refs import L, PI

K = 32


@leg("C05", "formulas")
def formulas(cx):
    pos = st.one_of(gen.logf(1e-2, 1e3), gen.logf(1e-3, 1e9) if cx.x64 else gen.logf(1e-2, 1e6))
    strat = st.fixed_dictionaries(dict(a=pos, r=pos, v=pos, h=pos, P=pos, p=pos, e=gen.ECC, f=gen.angle, mu=gen.mu_(cx.x64)))

    def check(cx, c):
        eps = L(cx.eps)
        d = cx.dt
        a, r, v, h, P, p, e, f, mu = (d(c[k]) for k in ("a", "r", "v", "h", "P", "p", "e", "f", "mu"))
        al, rl, vl, hl, Pl, pl, el, fl, m = (L(k) for k in (a, r, v, h, P, p, e, f, mu))
        g = lambda n, *x: cx.call(cx.jit(n), *x, what=n)

        def eq(n, x, want, sc):
            got = g(n, *x)
            cx.true(got.dtype == d, f"{n}: dtype", dtype=str(got.dtype))
            cx.close(got, want, K * eps * abs(sc), f"{n} with {len(x)} arguments", args=[float(k) for k in x])
            return got

        T = 2 * PI * np.sqrt(al**3 / m)
        got = eq("orb_period", (a, mu), T, T)
        eq("a_from_period", (got, mu), al, al)
        T1 = 2 * PI * np.sqrt(al**3)
        got = eq("orb_period", (a,), T1, T1)
        eq("a_from_period", (got,), al, al)
        A = np.cbrt(Pl**2 * m / (4 * PI**2))
        got = eq("a_from_period", (P, mu), A, A)
        eq("orb_period", (got, mu), Pl, Pl)
        A = np.cbrt(Pl**2 / (4 * PI**2))
        eq("a_from_period", (P,), A, A)
        eq("mean_motion", (P,), 2 * PI / Pl, 2 * PI / Pl)
        # vis-viva; at escape speed the axis is infinite, close to it ill-conditioned
        for x, mm in (((r, v, mu), m), ((r, v), L(1))):
            inv, noise = 2 / rl - vl**2 / mm, 2 / rl + vl**2 / mm
            if abs(inv) > 1e3 * K * eps * noise:
                eq("semimajor_axis", x, 1 / inv, noise / inv**2)
        eq("semiparameter", (h, mu), hl**2 / m, hl**2 / m)
        eq("semiparameter", (h,), hl**2, hl**2)
        den = 1 + el * np.cos(fl)
        if abs(den) > 0.01:
            eq("equ_of_orbit", (p, e, f), pl / den, pl / den * (1 + (1 + el) / abs(den)))
        eq("radius_periapsis", (p, e), pl / (1 + el), pl / (1 + el))
        if e != 1:
            eq("radius_apoapsis", (p, e), pl / (1 - el), pl / (1 - el) * (1 + el) / (1 - el))
            A = eq("a_from_pe", (p, e), pl / (1 - el**2), pl / (1 - el**2) * (1 + el**2) / (1 - el**2))
            sc = (1 + el**2) / abs(1 - el**2)
            if K * eps * sc < 0.01:
                eq("semipara_from_ae", (A, e), pl, pl * sc)
        s = np.sign(1 - el) or L(1)
        q = eq("semipara_from_ae", (d(s * al), e), s * al * (1 - el**2), al * (1 + el**2))
        if e != 1:
            sc = (1 + el**2) / abs(1 - el**2)
            if K * eps * sc < 0.01:
                eq("a_from_pe", (q, e), s * al, al * sc)
        return True

    return strat, check


@leg("C05", "orbit")
def orbit(cx):
    """On a generated orbit: definitions, constancy along the orbit, radii and period attained."""
    strat = st.fixed_dictionaries(dict(orb=gen.orbit(cx.x64), u2=gen.signed, f=gen.f_(-np.pi, np.pi)))
    adx = cx.adx

    def everything(r, v, mu):
        n = cx.jnp.linalg.vector_norm
        h = adx.angular_momentum(r, v)
        e = adx.eccentricity_vector(r, v, mu)
        p = adx.semiparameter(n(h), mu)
        a = adx.semimajor_axis(n(r), n(v), mu)
        em = n(e)
        return dict(h=h, e=e, p=p, a=a, rp=adx.radius_periapsis(p, em), ra=adx.radius_apoapsis(p, em), P=adx.orb_period(a, mu),
                    p2=adx.semipara_from_ae(a, em), a2=adx.a_from_pe(p, em), e1=adx.eccentricity_vector(r, v))

    j = cx.jax.jit(everything)
    jr = cx.jit("equ_of_orbit")

    def check(cx, c):
        eps = L(cx.eps)
        orb = c["orb"]
        info = dict(orb=orb)
        out = []
        for key in ("u", "u2"):
            r, v, mu = gen.state(cx, dict(orb, u2=c["u2"]), key)
            o = cx.call(j, r, v, mu, what="orbital integrals")
            rl, vl, m = refs.ld(r), refs.ld(v), L(mu)
            nr, nv = refs.norm(rl), refs.norm(vl)
            h = refs.cross(rl, vl)
            e = refs.cross(vl, h) / m - rl / nr
            nh, ne = refs.norm(h), refs.norm(e)
            w = nr * nv**2 / m
            st_ = dict(r=r.tolist(), v=v.tolist(), mu=float(mu), phase=key)
            cx.close(o["h"], h, K * eps * nr * nv, "angular momentum", **st_)
            cx.close(o["e"], e, K * eps * (1 + w), "eccentricity vector", **st_)
            e1 = refs.cross(vl, h) - rl / nr
            cx.close(o["e1"], e1, K * eps * (1 + nr * nv**2), "eccentricity vector with mu omitted", **st_)
            p = nh**2 / m
            tp = 2 * eps * nr * nv / nh + eps
            cx.close(o["p"], p, K * p * tp, "semiparameter of a state", **st_)
            inv, noise = 2 / nr - nv**2 / m, 2 / nr + nv**2 / m
            ra = noise / abs(inv) * eps if inv != 0 else L(1)  # relative error of a
            if K * ra < 0.01:
                cx.close(o["a"], 1 / inv, K * ra / abs(inv), "semimajor axis of a state", **st_)
                # p = a (1 - e^2) ties energy, momentum and eccentricity together
                cx.close(o["p2"], p, K * (p * ra + 2 * ne * eps * (1 + w) / abs(inv) + eps / abs(inv)), "p = a (1 - e^2)", **st_)
            rel = (tp + 2 * ne * eps * (1 + w) / abs(1 - ne**2)) if ne != 1 else L(1)
            if K * rel < 0.01:
                cx.close(o["a2"], 1 / inv, K * (rel + eps) / abs(inv), "a = p / (1 - e^2)", **st_)
            # attained radii: p/(1+e) is the smallest, p/(1-e) the largest radius of this conic
            q = p / (1 + ne)
            cx.close(o["rp"], q, K * q * (tp + eps * (1 + w)), "periapsis radius", **st_)
            f = refs.angle_in_plane(e, rl, h) if ne > 0 else L(0)
            if ne > 0:
                cx.true(nr >= o["rp"] * (1 - K * (tp + eps * (1 + w))), "no point of the orbit is below the periapsis radius", rp=float(o["rp"]), **st_)
            if ne < 1:
                Q = p / (1 - ne)
                t = tp + eps * (1 + w) / (1 - ne)
                if K * t < 0.01:
                    cx.close(o["ra"], Q, K * Q * t, "apoapsis radius", **st_)
                    cx.true(nr <= o["ra"] * (1 + K * t), "no point of the orbit is above the apoapsis radius", ra=float(o["ra"]), **st_)
                if K * ra < 1e-3:
                    # after one predicted period the exact motion is back where it was
                    P = L(o["P"])
                    tP = 2 * PI * np.sqrt((1 / inv) ** 3 / m)
                    cx.close(P, tP, K * tP * (1.5 * ra + eps), "orbital period", **st_)
            # orbit equation with the library's p, e at this point's anomaly
            den = 1 + ne * np.cos(f)
            if den > 0.01 and ne > 0:
                got = cx.call(jr, o["p"], cx.dt(ne), cx.dt(f), what="equ_of_orbit")
                cx.close(got, nr, K * nr * (tp + (eps * (4 + ne) + (1 + w) * 0) * (1 + ne) / den), "orbit equation gives the radius", f=float(f), **st_)
            out.append((h, o, p, tp, nr * nv, w))
        # the same orbit seen from two points: same integrals, to the rounding of both states
        (h1, o1, p1, t1, s1, w1), (h2, o2, p2, t2, s2, w2) = out
        cx.close(o1["h"].astype(L) - o2["h"].astype(L), np.zeros(3), K * eps * (s1 + s2), "angular momentum is constant", **info)
        cx.close(o1["e"].astype(L) - o2["e"].astype(L), np.zeros(3), K * eps * (2 + w1 + w2), "eccentricity vector is constant", **info)
        cx.close(L(o1["p"]) - L(o2["p"]), 0, K * p1 * (t1 + t2), "semiparameter is constant", **info)
        tr = t1 + t2 + eps * (2 + w1 + w2)
        cx.close(L(o1["rp"]) - L(o2["rp"]), 0, K * L(o1["rp"]) * tr, "periapsis radius is constant", **info)
        return bool(orb["e"] > 0 and abs(orb["u"] - c["u2"]) > 1e-3)

    return strat, check
