"""Registry of the public functions: argument kinds, moderate argument ranges, output kinds, domain.

Used by the properties that quantify over all functions (C10, C11, C15, C16).  Ranges are chosen
such that every combination of independently drawn arguments is a valid call; `ok` says, on long
double values, where the result is also well conditioned, so that two evaluations that round
differently must still agree closely.

Argument kinds: S scalar-like (any batch shape), V (..., 3) vector, C scalar or (..., 1) column,
A scalar only.  Output kinds: S, C (..., 1), V (..., 3), M (..., 3, 3), 'ang' (angle modulo 2 pi),
'bool', 'M6'.
"""
import numpy as np
import refs
from refs import L, PI


class Arg:
    def __init__(self, name, kind, lo=0.0, hi=1.0, default=None, gen=None):
        self.name, self.kind, self.default = name, kind, default
        self._gen = gen or (lambda u: lo + (hi - lo) * u[0])

    def value(self, rng):
        """One value: a number, or a list of three for a vector."""
        return self._gen(rng.random(4))

    def integer(self, rng):
        """An integer-valued value in about the same range."""
        v = self.value(rng)
        if isinstance(v, list):
            out = [float(round(3 * x)) for x in v]
            return out if any(out) else [1.0, 2.0, -1.0]
        return float(round(v))


class Fn:
    def __init__(self, name, args, out, ok=None, broadcast=True, specials=(), diff=None, heavy=False):
        self.name, self.args, self.broadcast, self.specials = name, args, broadcast, specials
        self.out = out if isinstance(out, tuple) else (out,)
        self.multi = isinstance(out, tuple)
        self._ok = ok
        self.heavy = heavy
        # names of the arguments in which the function is smooth; None means all of them
        self.diff = [a.name for a in args if a.kind in "SVCA"] if diff is None else diff

    def ok(self, vals):
        """Whether the call is well conditioned; vals are single-element values."""
        if any(x.name == "mu" and not float(np.asarray(v).ravel()[0]) > 0 for x, v in zip(self.args, vals)):
            return False
        if self._ok is None:
            return True
        with np.errstate(all="ignore"):
            return bool(self._ok(*[refs.ld(v) for v in vals]))

    def random(self, rng, integers=False):
        for _ in range(30):
            v = [a.integer(rng) if integers else a.value(rng) for a in self.args]
            if self.ok(v):
                break
        return v


def vec(u):
    m = 0.5 + 1.5 * u[3]
    z, a = 2 * u[0] - 1, 2 * np.pi * u[1]
    s = np.sqrt(1 - z * z)
    return [float(m * s * np.cos(a)), float(m * s * np.sin(a)), float(m * z)]


def S(name, lo, hi, default=None):
    return Arg(name, "S", lo, hi, default)


def V(name):
    return Arg(name, "V", gen=vec)


def mu_(kind="S", default=1):
    return Arg("mu", kind, 0.3, 3.0, default)


def alpha_(default=None, kind="A"):
    return Arg("alpha", kind, gen=lambda u: 0.0 if u[1] < 0.15 else float(2 * u[0] - 1) * (1e-3 if u[1] < 0.3 else 1.0), default=default)


# ---- domains -------------------------------------------------------------------------------
def exact_special(*vals):
    """Small multiples of 1/4 only: exactly circular, equatorial, ... cases with exact arithmetic."""
    return all(np.all(4 * v == np.round(4 * v)) and np.all(np.abs(v) <= 4) for v in vals)


def ok_rv(r, v, mu, angles=True):
    h = refs.cross(r, v)
    if exact_special(r, v, mu):
        return refs.norm(h) > 0 and float(mu) == 1 and (refs.norm(r) in (1, 2, 4)) and refs.norm(h) in (1, 2, 4)
    hn = refs.norm(h)
    if hn < 0.15 * refs.norm(r) * refs.norm(v):
        return False
    e = refs.norm(refs.cross(v, h) / mu - r / refs.norm(r))
    return not angles or (np.hypot(h[0], h[1]) > 0.1 * hn and e > 0.05)


def ok_energy(r, v, mu):
    return abs(2 / refs.norm(r) - refs.dot(v, v) / mu) > 0.1


def angle_ok(a, b):
    return refs.norm(refs.cross(a, b)) > 0.1 * refs.norm(a) * refs.norm(b)


def ok_short(r1, v1, r2):
    a, b = refs.cross(r1, v1), refs.cross(r1, r2)
    return abs(refs.dot(a, b)) > 0.01 * refs.norm(r1) ** 2 * refs.norm(v1) * refs.norm(r2)


def ok_perigee(r1, v1, r2, mu):
    if not ok_short(r1, v1, r2):
        return False
    e = refs.cross(v1, refs.cross(r1, v1)) / mu - r1 / refs.norm(r1)
    n = refs.cross(r1, r2)
    s = refs.norm(n) * refs.norm(e)
    return (
        refs.norm(e) > 0.05
        and abs(refs.dot(n, refs.cross(r1, e))) > 0.01 * s * refs.norm(r1)
        and abs(refs.dot(n, refs.cross(e, r2))) > 0.01 * s * refs.norm(r2)
    )


def ok_rp(rmin, r, v, mu):
    h = refs.cross(r, v)
    e = refs.norm(refs.cross(v, h) / mu - r / refs.norm(r))
    return abs(refs.dot(h, h) / mu / (1 + e) - rmin) > 0.01


def ok_stm(r, v, r0, v0, t, mu):
    """The arguments need not lie on one orbit, but the anomaly they imply must stay moderate."""
    alpha = 2 / refs.norm(r0) - refs.dot(v0, v0) / mu
    chi = alpha * np.sqrt(mu) * t + (refs.dot(r, v) - refs.dot(r0, v0)) / np.sqrt(mu)
    return refs.norm(r) > 0.3 and refs.norm(r0) > 0.3 and abs(chi) < 12 and abs(alpha) * chi**2 < 25


def ok_nmax(rp, r1, r2, tof, mu):
    a = (max(r1, r2) + rp) / 2
    n = tof / (2 * PI) * np.sqrt(mu / a**3)
    return a > 0 and abs(n - np.round(n)) > 0.01


def ok_uni(deltat, alpha, r0, sigma0, mu):
    # r >= 0 along the orbit requires |sigma0|^2 <= 2 r0 - alpha r0^2
    return sigma0**2 < 2 * r0 - alpha * r0**2 - 0.1 and r0 > 0 and mu > 0


E = lambda lo=0.0, hi=0.95: S("e", lo, hi)
RV = [V("pos_vec"), V("vel_vec")]
TOLS = lambda n: [Arg("tol", "P", default=1e-6, gen=lambda u: 1e-6), Arg("max_iter", "P", default=n, gen=lambda u: n)]
ST = [V("r_vec"), V("v_vec"), V("r0_vec"), V("v0_vec")]
LC = lambda n: S(n, -2, 2)
SPEC_RV = [
    ([1.0, 0, 0], [0, 1.0, 0], 1.0), ([2.0, 0, 0], [0, 1.0, 0], 1.0), ([0, 1.0, 0], [1.0, 0, 0], 1.0),
    ([1.0, 0, 0], [0, 0, 1.0], 1.0), ([0, 0, 1.0], [2.0, 0, 0], 1.0), ([0, -2.0, 0], [0.5, 0, 0], 1.0),
]

FUNCTIONS = [
    Fn("kepler_equ_elps", [S("E", -8, 8), E(), S("M", -8, 8, 0)], "S"),
    Fn("dE", [S("E", -8, 8), E()], "S"),
    Fn("kepler_equ_hypb", [S("H", -3, 3), E(1.01, 3), S("N", -8, 8, 0)], "S"),
    Fn("dH", [S("H", -3, 3), E(1.01, 3)], "S"),
    Fn("mean_anomaly_elps", [S("a", 0.5, 5), S("deltat", -10, 10), mu_()], "S", ok=lambda a, t, m: a > 0 and m > 0),
    Fn("mean_anomaly_hypb", [S("a", -5, -0.5), S("deltat", -10, 10), mu_()], "S", ok=lambda a, t, m: a < 0 and m > 0),
    Fn("kepler_equ_uni", [S("chi", -3, 3), alpha_(1), S("r0", 0.5, 2, 1), S("sigma0", -0.9, 0.9, 0), S("deltat", -5, 5, 0), mu_()], "S",
       ok=lambda c, a, r, s, t, m: r > 0 and m > 0, heavy=True),
    Fn("generalized_anomaly", [alpha_(kind="S"), S("sigma", -2, 2), S("sigma0", -2, 2), S("deltat", -5, 5, 0), mu_()], "S", ok=lambda a, s, z, t, m: m > 0),
    Fn("orb_period", [S("a", 0.5, 5), mu_()], "S", ok=lambda a, m: a > 0 and m > 0),
    Fn("a_from_period", [S("orbperiod", 0.5, 20), mu_()], "S", ok=lambda a, m: a > 0 and m > 0),
    Fn("angular_momentum", RV, "V"),
    Fn("semimajor_axis", [S("r_mag", 0.5, 2), S("v_mag", 0.3, 2), mu_()], "S", ok=lambda r, v, m: r > 0 and m > 0 and abs(2 / r - v * v / m) > 0.1),
    Fn("eccentricity_vector", RV + [mu_("C")], "V", ok=lambda r, v, m: m > 0),
    Fn("semiparameter", [S("h_mag", 0.3, 3), mu_()], "S", ok=lambda h, m: m > 0),
    Fn("mean_motion", [S("P", 0.5, 20)], "S", ok=lambda P: P > 0),
    Fn("equ_of_orbit", [S("p", 0.3, 3), E(0, 3), S("f", -8, 8)], "S", ok=lambda p, e, f: abs(1 + e * np.cos(f)) > 0.1),
    Fn("equ_of_orb_uvi", [LC("U0"), LC("U1"), LC("U2"), S("r0", 0.5, 2), S("sigma0", -0.9, 0.9)], "S"),
    Fn("radius_periapsis", [S("p", 0.3, 3), E(0, 3)], "S"),
    Fn("radius_apoapsis", [S("p", 0.3, 3), E(0, 3)], "S", ok=lambda p, e: abs(1 - e) > 0.05),
    Fn("semipara_from_ae", [S("a", -4, 4), E(0, 3)], "S"),
    Fn("a_from_pe", [S("p", 0.3, 3), E(0, 3)], "S", ok=lambda p, e: abs(1 - e * e) > 0.1),
    Fn("rv2coe", RV + [mu_("C")], ("S", "S", "S", "ang", "ang", "ang"), ok=ok_rv, specials=SPEC_RV, heavy=True),
    Fn("coe2rv", [S("p", 0.3, 3), E(0, 2), S("incl", -3, 3), S("raan", -7, 7), S("argp", -7, 7), S("true_anom", -8, 8), mu_()], ("V", "V"),
       ok=lambda p, e, i, O, w, f, m: p > 0 and m > 0 and abs(1 + e * np.cos(f)) > 0.1, heavy=True),
    Fn("inclination", [V("h_vec")], "C", ok=lambda h: np.hypot(h[0], h[1]) > 0.1 * refs.norm(h)),
    Fn("true_anomaly", [V("pos_vec"), V("e_vec")], "C", ok=angle_ok),
    Fn("right_ascension", [V("node_vec")], "angC", ok=lambda n: np.hypot(n[0], n[1]) > 0.1 * refs.norm(n)),
    Fn("argument_of_periapsis", [V("node_vec"), V("e_vec")], "C", ok=angle_ok),
    Fn("twobody.lagrange_F", [LC("U2"), S("r0_mag", 0.5, 2, 1)], "S", ok=lambda u, r: r > 0),
    Fn("twobody.lagrange_G", [LC("U1"), LC("U2"), S("sigma0", -0.9, 0.9, 0), S("r0_mag", 0.5, 2, 1), mu_()], "S", ok=lambda a, b, s, r, m: m > 0),
    Fn("twobody.lagrange_Ft", [LC("U1"), S("r_mag", 0.5, 2), S("r0_mag", 0.5, 2, 1), mu_()], "S", ok=lambda u, r, z, m: r > 0 and z > 0 and m > 0),
    Fn("twobody.lagrange_Gt", [LC("U2"), S("r_mag", 0.5, 2)], "S", ok=lambda u, r: r > 0),
    Fn("twobody.sigma_fn", RV + [mu_("C")], "C", ok=lambda r, v, m: m > 0),
    *[Fn(f"twobody.ufunc{n}", [S("chi", -3, 3), alpha_()], "S", heavy=True) for n in range(6)],
    Fn("twobody.C_func", [S("chi", -3, 3), LC("U2"), LC("U4"), LC("U5"), S("deltat", -5, 5, 3.14), mu_()], "S", ok=lambda c, a, b, d, t, m: m > 0),
    Fn("utils.rotmat3dx", [S("angle", -8, 8)], "M"),
    Fn("utils.rotmat3dy", [S("angle", -8, 8)], "M"),
    Fn("utils.rotmat3dz", [S("angle", -8, 8)], "M"),
    # scalar or single-vector functions
    Fn("solve_kepler_elps", [S("M", -8, 8), E()] + TOLS(20), "S", broadcast=False, heavy=True, ok=lambda M, e, *_: 0 <= e < 1),
    Fn("solve_kepler_hypb", [S("N", -8, 8), E(1.1, 3)] + TOLS(50), "S", broadcast=False, heavy=True, ok=lambda M, e, *_: e > 1),
    Fn("solve_kepler_uni", [S("deltat", -5, 5), alpha_(kind="A"), S("r0", 0.5, 2), S("sigma0", -0.9, 0.9), mu_()] + TOLS(50), "S", broadcast=False, heavy=True,
       ok=lambda t, a, r, s, m, *_: ok_uni(t, a, r, s, m)),
    Fn("twobody.nmax_by_periapsis", [S("rp_min", 0.3, 1, 0.97), S("r1", 0.5, 3, 1.0), S("r2", 0.5, 3, 1.0), S("tof", 0.5, 60, float(np.pi)), mu_()], "S",
       broadcast=False, ok=ok_nmax, diff=[]),
    Fn("twobody.is_short_way", [V("r1"), V("v1"), V("r2")], "bool", broadcast=False, ok=ok_short, diff=[]),
    Fn("twobody.pass_perigee", [V("r1"), V("v1"), V("r2"), mu_()], "bool", broadcast=False, ok=ok_perigee, diff=[]),
    Fn("twobody.rp_islower_rmin", [S("rmin", 0.2, 1.5), V("r"), V("v"), mu_()], "bool", broadcast=False, ok=ok_rp, diff=[]),
    Fn("twobody.prpr0", ST + [LC("F"), LC("C"), mu_()], "M", broadcast=False, ok=lambda a, b, c, d, F, C, m: m > 0),
    Fn("twobody.prpv0", ST + [LC("F"), LC("G"), LC("C"), mu_()], "M", broadcast=False, ok=lambda a, b, c, d, F, G, C, m: m > 0),
    Fn("twobody.pvpr0", ST + [LC("Ft"), LC("C"), mu_()], "M", broadcast=False, ok=lambda a, b, c, d, F, C, m: m > 0),
    Fn("twobody.pvpv0", ST + [LC("F"), LC("Gt"), LC("C"), mu_()], "M", broadcast=False, ok=lambda a, b, c, d, F, G, C, m: m > 0),
    Fn("twobody.dxdx0", ST + [S("deltat", -2, 2, 3.14), mu_()], "M6", broadcast=False, heavy=True, ok=ok_stm,
       specials=[([2.0, 0, 0], [0, 1.0, 0], [2.0, 0, 0], [0, 1.0, 0], 0.0, 1.0), ([1.0, 0.5, 0.25], [-0.5, 0.75, 0], [2.0, 0, 0], [0, 0, 1.0], 1.5, 1.0)]),
    Fn("prop.kepler", [Arg("ts", "S", -6, 6), V("r0_vec"), V("v0_vec"), mu_(default=1.0)], ("V", "V"), broadcast=False, heavy=True,
       ok=lambda t, r, v, m: m > 0 and ok_rv(r, v, m, False) and ok_energy(r, v, m)),
]
BY_NAME = {f.name: f for f in FUNCTIONS}
BROADCAST = [f for f in FUNCTIONS if f.broadcast]

# which functions are public is read from the package itself, so that none is forgotten
OTHER = {
    "gravity.point_mass_grav", "gravity.j2_acc", "gravity.j3_acc", "gravity.j4_acc", "events.radius_islow",
    "prop.OrbDynx", "prop.cowell_method", "prop.custom_steps", "prop.fixed_steps", "prop.adaptive_steps", "prop.to_final",
}


def public_names(adx):
    import types

    out = set()
    for n in adx.__all__:
        o = getattr(adx, n)
        if isinstance(o, types.ModuleType):
            out |= {f"{n}.{k}" for k in o.__all__}
        else:
            out.add(n)
    return out


def check_complete(adx):
    """Names offered by the package but unknown here, and the reverse."""
    have = {f.name for f in FUNCTIONS} | OTHER
    pub = public_names(adx)
    return sorted(pub - have), sorted(have - pub)


def outputs(fn, out):
    """Result as a list of arrays."""
    return [np.asarray(o) for o in out] if fn.multi else [np.asarray(out)]


def tolerance(cx):
    return 1e-9 if cx.x64 else 1e-4


def same(cx, fn, got, want, what, /, rel=None, **info):
    """Two results of fn agree to rounding (angles modulo 2 pi, booleans exactly)."""
    rel = tolerance(cx) if rel is None else rel
    got, want = outputs(fn, got), outputs(fn, want)
    cx.true(len(got) == len(want), f"{what}: number of results", **info)
    for k, (kind, g, w) in enumerate(zip(fn.out, got, want)):
        label = f"{what}{f' (result {k})' if fn.multi else ''}"
        cx.true(g.shape == w.shape, f"{label}: shape {g.shape}, expected {w.shape}", **info)
        if kind == "bool":
            cx.true(bool((g == w).all()), f"{label}: {g.tolist()}, expected {w.tolist()}", **info)
            continue
        g, w = g.astype(L), w.astype(L)
        if kind.startswith("ang"):
            g = w + refs.wrap(g - w)
        scale = np.maximum(np.abs(w), 1)
        if kind in ("V", "M", "M6"):
            ax = {"V": (-1,), "M": (-1, -2), "M6": (-1, -2)}[kind]
            scale = np.maximum(scale.max(axis=ax, keepdims=True), 1)
        cx.close(g, w, rel * scale, label, **info)
