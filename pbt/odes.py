"""Force models shared by C08 and C09: the library's version and an independent reference."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
import gen
import refs
from refs import L

ZERO = dict(J2=0.0, J3=0.0, J4=0.0, R_eq=1.0, A=0.0, w=1.0, ph=0.0, c=0.0)
DIR = (1.0, 0.5, -0.3)


def force_params():
    """Parameters of the force model; mu is added from the orbit."""
    sg = lambda a: gen.f_(-a, a)
    zonal = st.fixed_dictionaries(dict(J2=sg(2e-2), J3=sg(5e-3), J4=sg(5e-3), R_eq=gen.f_(0.3, 1.0)))
    user = st.fixed_dictionaries(dict(A=sg(5e-2), w=gen.f_(0.1, 5), ph=gen.f_(0, 6.3), c=gen.f_(-0.02, 0.05)))
    return st.one_of(
        st.just({}), zonal, user, st.tuples(zonal, user).map(lambda t: dict(t[0], **t[1])),
    )


def vector_field(cx, **extra):
    """x' = (v, a): point mass, zonal terms from the library, and a user force of time and velocity."""
    jnp, g = cx.jnp, cx.adx.gravity

    def vf(t, x, args):
        a = g.point_mass_grav(t, x, args) + g.j2_acc(t, x, args) + g.j3_acc(t, x, args) + g.j4_acc(t, x, args)
        u = args["user"]
        a = a + u["A"] * jnp.sin(u["w"] * t + u["ph"]) * jnp.array(DIR) - u["c"] * x[3:]
        return jnp.concatenate([x[3:], a])

    return vf


def lib_args(cx, mu, p):
    p = dict(ZERO, **p)
    d = cx.dt
    a = {k: d(p[k]) for k in ("J2", "J3", "J4", "R_eq")}
    a["mu"] = d(mu)
    a["user"] = {k: d(p[k]) for k in ("A", "w", "ph", "c")}
    return a


def reference_field(mu, p, dt=np.float64):
    """The same equations of motion, written out from the potential's closed form."""
    p = {k: float(dt(v)) for k, v in dict(ZERO, **p).items()}
    mu = float(mu)
    J2, J3, J4, R, A, w, ph, c = (p[k] for k in ("J2", "J3", "J4", "R_eq", "A", "w", "ph", "c"))
    dx, dy, dz = (float(dt(k)) for k in DIR)
    from math import sin, sqrt

    def f(t, s):
        x, y, z, vx, vy, vz = (float(k) for k in s)
        r2 = x * x + y * y + z * z
        r = sqrt(r2)
        u = z / r
        q = R / r
        # potential mu/r (1 - sum J_n q^n P_n(u)); radial and polar derivatives
        P2, D2 = (3 * u * u - 1) / 2, 3 * u
        P3, D3 = (5 * u**3 - 3 * u) / 2, (15 * u * u - 3) / 2
        P4, D4 = (35 * u**4 - 30 * u * u + 3) / 8, (140 * u**3 - 60 * u) / 8
        rad = -1 + 3 * J2 * q * q * P2 + 4 * J3 * q**3 * P3 + 5 * J4 * q**4 * P4
        pol = -(J2 * q * q * D2 + J3 * q**3 * D3 + J4 * q**4 * D4)
        k = mu / r2
        b = k * (rad - pol * u) / r
        d = A * sin(w * t + ph)
        return np.array([vx, vy, vz, b * x + d * dx - c * vx, b * y + d * dy - c * vy, b * z + k * pol + d * dz - c * vz])

    return f


def check_reference(x, mu, p):
    """The closed form used by the reference integrator against the complex-step gradient."""
    p = dict(ZERO, **p)
    f = reference_field(mu, dict(p, A=0.0, c=0.0))
    got = f(0.0, x)[3:]
    want = refs.zonal_acc(0, x, mu, -1, 1) + sum(refs.zonal_acc(n, x, mu, p[f"J{n}"], p["R_eq"]) for n in (2, 3, 4))
    from core import HarnessError

    if not np.allclose(got, want.astype(float), rtol=1e-10, atol=1e-12 * mu / float(refs.dot(refs.ld(x[:3]), refs.ld(x[:3])))):
        raise HarnessError(f"reference force model is wrong at {x}: {got} {want}")


class Unresolved(Exception):
    pass


def truth(x0, mu, p, ts, dt=np.float64):
    """States at ts (sorted or not) from x0 at time 0."""
    ts = np.asarray(ts, dtype=float)
    x0 = np.asarray(x0, dtype=float)
    if not any(p.get(k) for k in ("J2", "J3", "J4", "A", "c")):
        r, v = refs.kepler_state(ts, x0[:3], x0[3:], mu)
        return np.concatenate([r, v], axis=-1)
    check_reference(x0, float(mu), p)
    if (ts < 0).any():
        assert (ts <= 0).all()
        back = True
    else:
        back = False
    u, inv = np.unique(np.abs(ts), return_inverse=True)
    out = np.empty((len(u), 6))
    pos = u > 0
    out[~pos] = x0
    if pos.any():
        f, count = reference_field(mu, p, dt), [0]

        def capped(t, y):
            # a decaying orbit that falls into the centre would take forever
            count[0] += 1
            if count[0] > 60000 or not np.dot(y[:3], y[:3]) > 1e-4:
                raise Unresolved
            return -f(-t, y) if back else f(t, y)

        try:
            s = solve_ivp(capped, (0.0, u[-1]), x0, method="DOP853", rtol=1e-12, atol=1e-13, t_eval=u[pos])
        except Unresolved:
            return None
        if not s.success or s.y.shape[1] != pos.sum():
            return None
        out[pos] = s.y.T
    return out[inv].astype(L)


def regular(cx, x0, mu, p, t1, rmin=0.35):
    """Whether the perturbed arc stays clear of the centre (by its osculating periapsis)."""
    if not any(p.get(k) for k in ("J2", "J3", "J4", "A", "c")):
        return True
    T = truth(x0, mu, p, np.linspace(0, float(t1), 25), cx.dt)
    if T is None:
        return False
    T = T.astype(float)
    r, v = T[:, :3], T[:, 3:]
    rn = np.linalg.norm(r, axis=1)
    h2 = (np.cross(r, v) ** 2).sum(1)
    e2 = 1 + 2 * h2 * ((v**2).sum(1) / 2 - mu / rn) / mu**2
    rp = h2 / mu / (1 + np.sqrt(np.maximum(e2, 0)))
    return bool(rp.min() > rmin and rn.min() > rmin)


def growth(x0, mu, ts):
    """G(t) = max over s <= t of |Phi(t, s)|: how much earlier errors have grown by time t (two-body)."""
    x0 = refs.ld(x0)
    sg = -1 if np.min(ts) < 0 else 1  # backward arcs alike
    ts = np.abs(ts)
    t1 = float(np.max(ts))
    grid = np.unique(np.concatenate([np.linspace(0, t1, 9)]))
    Ph = [refs.kepler_jac(sg * t, x0[:3], x0[3:], mu)[:, :6] for t in grid]
    J = np.zeros((6, 6), dtype=L)
    J[:3, 3:], J[3:, :3] = np.eye(3), -np.eye(3)
    inv = [-J @ P.T @ J for P in Ph]
    g, G = L(1), []
    for k in range(len(grid)):
        g = max([g] + [np.abs(Ph[k] @ inv[i]).max() for i in range(k + 1)])
        G.append(g)
    return np.array([G[int(np.searchsorted(grid, min(t, t1)))] for t in ts], dtype=L)


def orbit(emax=0.75):
    """Bound and mildly unbound orbits in canonical units with x0 and a duration in periods."""
    return gen.uniforms(9).map(
        lambda u: dict(
            q=0.6 + 1.4 * u[0], e=(emax * u[1] if u[8] < 0.85 else 1.0 + 0.5 * u[1]), u=2 * u[2] - 1,
            o=[6.3 * u[3], 3.1416 * u[4], 6.3 * u[5]], mu=(1.0 if u[6] < 0.4 else 0.3 * 10 ** (u[6])), T=u[7],
        )
    )


def initial(cx, c, revs=2.0):
    """x0 (6,), mu, t1 for an orbit() case."""
    o = dict(c)
    if o["e"] >= 1:
        o["u"] *= 0.3  # not too far out on open orbits
    r, v, mu = gen.state(cx, o)
    if o["e"] < 1:
        t1 = 2 * np.pi * np.sqrt((o["q"] / (1 - o["e"])) ** 3 / o["mu"]) * (0.02 + revs * o["T"])
    else:
        t1 = np.sqrt(o["q"] ** 3 / o["mu"]) * (0.1 + 10 * o["T"])
    return np.concatenate([r, v]), mu, cx.dt(t1)
