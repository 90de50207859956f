"""Shared generators.  Every case is plain JSON; builders turn it into arrays of the session dtype."""
import itertools
import numpy as np
from hypothesis import strategies as st
import refs
from refs import L, PI, ld



def f_(lo, hi, exclude_max=False):
    """Floats in [lo, hi]: mostly evenly spread, sometimes hypothesis' own choice.

    Hypothesis' floats() (and integers() on large ranges) prefer simple values so strongly that a
    third of all orbits would have t = 0, u = 0 or q = 1; three uniform bytes do not, and still
    shrink towards 0 (or lo).  Numbers whose squares leave the float32 range become 0.
    """
    w = hi - lo
    inside = lo <= 0 <= hi

    def spread(b):
        x = int.from_bytes(b, "big") / 16777216 * w
        if not inside:
            return lo + x
        return x if x <= hi else max(x - w, lo)

    grid = st.binary(min_size=3, max_size=3).map(spread)
    any_ = st.floats(lo, hi, exclude_max=exclude_max)
    return st.one_of(grid, grid, grid, grid, any_).map(lambda x: 0.0 if abs(x) < 1e-15 else x)


def logf(lo, hi):
    a, b = float(np.log10(lo)), float(np.log10(hi))
    return f_(a, b).map(lambda x: float(10.0**x))


unit = f_(0, 1)
signed = f_(-1, 1)
angle = st.one_of(
    f_(-np.pi, np.pi),
    f_(0, 2 * np.pi),
    f_(-20, 20),
    st.sampled_from([0.0, np.pi / 2, np.pi, 3 * np.pi / 2, 2 * np.pi, -np.pi / 2, -np.pi, np.pi / 4]),
)

ECC_ELL = st.one_of(
    st.just(0.0),
    f_(0, 0.99),
    f_(0.01, 0.95),
    f_(0.3, 0.99),
    f_(-6, -1).map(lambda x: float(10.0**x)),
    f_(-6, -1).map(lambda x: float(1 - 10.0**x)),
)
ECC_HYP = st.one_of(
    f_(-6, -1).map(lambda x: float(1 + 10.0**x)),
    f_(1.01, 5),
    f_(1.01, 2),
    logf(2, 100),
)
ECC = st.one_of(ECC_ELL, ECC_ELL, ECC_HYP, st.just(1.0))

# the 24 proper rotations of the cube, exactly representable
CUBE = []
for _perm in itertools.permutations(range(3)):
    for _s in itertools.product((1, -1), repeat=3):
        _m = np.zeros((3, 3))
        for _i in range(3):
            _m[_i, _perm[_i]] = _s[_i]
        if np.linalg.det(_m) > 0:
            CUBE.append(_m)

ORIENT = st.one_of(
    st.lists(angle, min_size=3, max_size=3),
    st.lists(angle, min_size=3, max_size=3),
    st.lists(f_(-4, 4), min_size=3, max_size=3),
    st.integers(0, 23),
)


def orient(o):
    if isinstance(o, int):
        return CUBE[o].astype(L)
    return refs.rot(2, o[0]) @ refs.rot(0, o[1]) @ refs.rot(2, o[2])


def mu_(x64):
    return st.one_of(
        st.sampled_from([1.0, 398600.4418, 2.0, 0.5]),
        logf(1e-2, 1e6),
        logf(1e-2, 1e6),
        logf(1e-3, 1e11) if x64 else logf(1e-2, 1e6),
    )


def q_(x64):
    return st.one_of(st.sampled_from([1.0, 2.0, 0.5, 7000.0]), logf(0.2, 50.0), logf(0.2, 50.0), logf(0.1, 1e8) if x64 else logf(0.1, 1e4))


def uniforms(n):
    """n independent uniform numbers in [0, 1) from one draw (fuzz-style decoding of bytes)."""
    return st.binary(min_size=3 * n, max_size=3 * n).map(
        lambda b: [int.from_bytes(b[3 * i : 3 * i + 3], "big") / 16777216 for i in range(n)]
    )


def decode_ecc(k, x):
    """Eccentricity with smooth density on every regime; k selects the regime."""
    if k < 0.35:
        return x * 0.99
    if k < 0.45:
        return 10.0 ** (-6 * x)
    if k < 0.6:
        return 1 - 10.0 ** (-6 * x) if x > 0.02 else 0.5
    if k < 0.75:
        return 1 + 10.0 ** (-6 * x)
    return 1 + 3 * x + 1e-3 if k < 0.93 else 4 * 25**x


def generic_orbit(x64):
    def dec(u):
        qr, mr = (((-1, 9), (-3, 14)) if x64 else ((-1, 5), (-2, 8))) if u[7] > 0.6 else ((-0.7, 2.4), (-2, 8))
        return dict(
            q=10.0 ** (qr[0] + qr[1] * u[0]), e=decode_ecc(u[1], u[2]), u=2 * u[3] - 1,
            o=[6.3 * u[4], 3.1416 * u[5], 6.3 * u[6]], mu=10.0 ** (mr[0] + mr[1] * u[8]),
        )

    return uniforms(9).map(dec)


def orbit(x64, ecc=ECC):
    """Conic: periapsis radius q, eccentricity e, phase u in [-1,1], orientation o, mu.

    Half structured (special values, correlated coordinates), half generic.
    """
    special = special_orbit(x64, ecc)
    return st.one_of(special, generic_orbit(x64)) if ecc is ECC else special


def special_orbit(x64, ecc=ECC):
    return st.fixed_dictionaries(
        dict(
            q=q_(x64),
            e=ecc,
            u=st.one_of(signed, signed, signed, signed, st.sampled_from([1.0, -1.0, 0.0, 0.5, -0.5])),
            o=ORIENT,
            mu=mu_(x64),
        )
    )


def phase(e, u):
    """True anomaly for phase parameter u: u*pi on ellipses, by radius on open orbits."""
    e, u = L(e), L(u)
    if e < 1:
        return u * PI
    rho = L(10) ** (3 * abs(u))
    c = ((1 + e) / rho - 1) / e
    return np.sign(u) * np.arccos(np.clip(c, -1, 1))


def state(cx, c, key_u="u"):
    """(r0, v0, mu) in the session dtype for an orbit case."""
    mu = float(cx.dt(c["mu"]))
    q, e = L(c["q"]), L(c["e"])
    p = q * (1 + e)
    f = phase(e, c[key_u])
    cf, sf = np.cos(f), np.sin(f)
    r = p / (1 + e * cf) * np.array([cf, sf, 0], dtype=L)
    v = np.sqrt(L(mu) / p) * np.array([-sf, e + cf, 0], dtype=L)
    m = orient(c["o"])
    return (m @ r).astype(cx.dt), (m @ v).astype(cx.dt), cx.dt(mu)


# time of flight: [0, x] = x dynamical times sqrt(q^3/mu); [1, x] = x periods (ellipse)
def _dec_tof(u):
    s = 1 if u[1] > 0.5 else -1
    if u[0] < 0.4:
        return [0, s * 10.0 ** (-2 + 4 * u[2])]
    if u[0] < 0.8:
        return [1, s * (u[2] * 1.5 + 1e-3)]
    return [1, s * 30 * u[2]] if u[0] < 0.9 else [0, s * 10.0 ** (2 + 2 * u[2])]


TOF = st.one_of(
    uniforms(3).map(_dec_tof),
    uniforms(3).map(_dec_tof),
    uniforms(3).map(_dec_tof),
    st.tuples(st.just(0), st.one_of(f_(-10, 10), logf(1e-3, 1e3), logf(1e-3, 1e3).map(lambda x: -x))).map(list),
    st.tuples(st.just(1), st.one_of(f_(-3, 3), f_(-1, 1), st.sampled_from([0.0, 0.5, 1.0, -0.5, -1.0, 2.0, 0.25]))).map(list),
    st.tuples(st.just(0), st.one_of(logf(1e2, 1e4), logf(1e2, 1e4).map(lambda x: -x))).map(list),
    st.tuples(st.just(1), f_(-40, 40)).map(list),
)


def tof(cx, c, t):
    mu, q, e = L(float(cx.dt(c["mu"]))), L(c["q"]), L(c["e"])
    k, x = t
    if k == 1 and e < 0.999:
        T = 2 * PI * np.sqrt((q / (1 - e)) ** 3 / mu) * L(x)
    else:
        T = np.sqrt(q**3 / mu) * L(x)
        if e < 1:  # at most 50 revolutions
            P = 2 * PI * np.sqrt((q / (1 - e)) ** 3 / mu)
            T = np.clip(T, -50 * P, 50 * P)
    return cx.dt(T)


def is_general(c):
    return c["e"] > 0 and not isinstance(c["o"], int)
