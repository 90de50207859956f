"""C07: gravity accelerations are the gradient of the zonal potential."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import refs
from refs import L

K = 32
SIZE = {0: 1, 2: 8, 3: 16, 4: 40}  # bound on the terms of the closed form, relative to mu J R^n / r^(n+2)
NAMES = {0: "point_mass_grav", 2: "j2_acc", 3: "j3_acc", 4: "j4_acc"}


def position(x64):
    axis = st.sampled_from([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [-1.0, 0, 0], [0, -1.0, 0], [0, 0, -1.0]])
    plane = st.tuples(gen.uniforms(3), st.integers(0, 2)).map(lambda t: [0.0 if k == t[1] else 2 * t[0][k] - 1 for k in range(3)])
    ball = gen.uniforms(3).map(lambda u: [2 * k - 1 for k in u])
    near = st.tuples(gen.uniforms(3), st.integers(0, 2), gen.logf(1e-8, 1e-1)).map(
        lambda t: [(2 * t[0][k] - 1) * (1 if k == t[1] else t[2]) for k in range(3)])
    d = st.one_of(ball, ball, plane, axis, near)
    size = st.one_of(gen.logf(0.5, 10), gen.logf(1e-8, 1e8) if x64 else gen.logf(1e-2, 1e4))
    return st.tuples(d, size).map(lambda t: [k * t[1] for k in t[0]])


@leg("C07", "zonal")
def zonal(cx):
    sgn = lambda s: st.one_of(s, s.map(lambda x: -x))
    strat = st.fixed_dictionaries(
        dict(
            x=position(cx.x64), v=st.lists(gen.f_(-10, 10), min_size=3, max_size=3), t=gen.f_(-1e4, 1e4), ext=st.sampled_from([0, 3, 3, 4, 9]),
            mu=gen.mu_(cx.x64), R=st.one_of(st.just(1.0), gen.logf(0.1, 10), gen.logf(1e-2, 1e4)),
            J=st.one_of(sgn(gen.logf(1e-7, 1e-1)), sgn(gen.logf(1e-2, 10)), st.sampled_from([1.0, 1e-3, 1.08262668e-3, 0.0])),
            n=st.sampled_from([0, 2, 3, 4]), extra=gen.f_(-5, 5), form=st.sampled_from(["jit", "jit", "jit", "all", "all", "eager", "default"]),
        )
    )
    # the same parameter set for all four terms, as a force model would pass it
    both = {n: cx.jit("gravity." + k) for n, k in NAMES.items()}

    def check(cx, c):
        d, eps = cx.dt, L(cx.eps)
        n = c["n"]
        x3 = cx.a(c["x"])
        r = refs.norm(x3)
        if r < (1e-9 if cx.x64 else 1e-3):
            return False
        x = np.concatenate([x3, np.resize(cx.a(c["v"]), c["ext"])])  # position only, a state, or a state with more entries
        mu, J, R, t = d(c["mu"]), d(c["J"]), d(c["R"]), d(c["t"])
        name = NAMES[n]
        f = cx.get("gravity." + name)
        info = dict(x=x.tolist(), t=float(t), mu=float(mu), J=float(J), R=float(R))
        if c["form"] == "default":
            # default parameters: mu = 1 and no perturbation
            got = cx.call(f, t, x, what=name)
            mu, J, R = d(1), d(0), d(1)
        else:
            args = {"mu": mu} if n == 0 else {"mu": mu, f"J{n}": J, "R_eq": R}
            if c["form"] == "all":
                args = {"mu": mu, "J2": d(0.5), "J3": d(-0.25), "J4": d(0.125), "R_eq": R, "rmin": d(c["extra"]), "drag": d(c["extra"])}
                if n:
                    args[f"J{n}"] = J
            keep = dict(args)
            got = cx.call(f if c["form"] == "eager" else both[n], t, x, args, what=name)
            cx.true(args == keep, f"{name} leaves its parameters alone", args=str(args))
        cx.true(got.shape == (3,) and got.dtype == d, f"{name}: shape and dtype", shape=got.shape, dtype=str(got.dtype))
        Jn = L(-1) if n == 0 else L(J)
        want = refs.zonal_acc(n, x3, mu, Jn, R)
        tol = K * eps * SIZE[n] * abs(L(mu) * Jn) * (L(R) / r) ** n / r**2
        cx.close(got, want, tol, f"{name} is the gradient of its potential term", **info)
        return bool(Jn != 0)

    return strat, check
