"""Reference models in numpy longdouble (80-bit), written from the textbook definitions.

Nothing here imports or imitates the code under test; everything is vectorised over
leading axes.  longdouble carries 64 mantissa bits, so it is 2000x finer than float64.
"""
import numpy as np

L = np.longdouble
PI = L("3.14159265358979323846264338327950288")
FACT = [L(1), L(1), L(2), L(6), L(24), L(120)]


def ld(x):
    return np.asarray(x, dtype=L)


def stumpff(psi):
    """c_0..c_5 with U_n = chi^n c_n(alpha chi^2)."""
    psi = ld(psi)
    small = np.abs(psi) < 6
    ps = np.where(small, psi, L(0))
    ser = []
    for n in range(6):
        s = np.ones_like(ps)
        for k in range(22, 0, -1):
            s = 1 - ps * s / L((n + 2 * k - 1) * (n + 2 * k))
        ser.append(s / FACT[n])
    pb = np.where(small, L(9), psi)
    q = np.sqrt(np.abs(pb))
    pos = pb > 0
    with np.errstate(over="ignore"):
        c0 = np.where(pos, np.cos(q), np.cosh(np.where(pos, 0, q)))
        c1 = np.where(pos, np.sin(q), np.sinh(np.where(pos, 0, q))) / q
        c2 = (1 - c0) / pb
        c3 = (1 - c1) / pb
        c4 = (L(1) / 2 - c2) / pb
        c5 = (L(1) / 6 - c3) / pb
    return [np.where(small, a, b) for a, b in zip(ser, (c0, c1, c2, c3, c4, c5))]


def ufuncs(chi, alpha):
    chi = ld(chi)
    c = stumpff(ld(alpha) * chi * chi)
    return [c[n] * chi**n for n in range(6)]


def dot(a, b):
    return np.sum(a * b, axis=-1)


def cross(a, b):
    a, b = np.broadcast_arrays(ld(a), ld(b))
    return np.stack(
        [
            a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
            a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
            a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0],
        ],
        axis=-1,
    )


def norm(a):
    return np.sqrt(dot(ld(a), ld(a)))


def solve_uni(T, alpha, r0, s0):
    """chi with r0 U1 + s0 U2 + U3 = T; Laguerre steps kept inside a bisection bracket."""
    T, alpha, r0, s0 = np.broadcast_arrays(ld(T), ld(alpha), ld(r0), ld(s0))
    shape = T.shape
    T, alpha, r0, s0 = (np.atleast_1d(a).astype(L) for a in (T, alpha, r0, s0))
    aT = np.abs(T)
    sq = np.sqrt(np.where(alpha == 0, L(1), np.abs(alpha)))
    cub = np.cbrt(24 * aT)
    hyp = 2 / sq * np.arcsinh(sq**3 * aT / 2 + sq * np.cbrt(3 * aT))
    ub = np.where(alpha < 0, hyp, cub) * L(1.02)
    w = 2 / sq * L(1.02)
    lo = np.where(alpha > 0, alpha * T - w, np.where(T > 0, L(0), -ub))
    hi = np.where(alpha > 0, alpha * T + w, np.where(T > 0, ub, L(0)))
    x = np.where(alpha > 0, alpha * T, np.sign(T) * ub / L(1.02))
    # sign of the root is the sign of T
    lo = np.where(T > 0, np.maximum(lo, 0), lo)
    hi = np.where(T < 0, np.minimum(hi, 0), hi)
    x = np.clip(x, lo, hi)
    done = T == 0
    x = np.where(done, L(0), x)
    for _ in range(120):
        u = ufuncs(x, alpha)
        f = r0 * u[1] + s0 * u[2] + u[3] - T
        d = r0 * u[0] + s0 * u[1] + u[2]
        dd = s0 * u[0] + (1 - alpha * r0) * u[1]
        hi = np.where(f > 0, np.minimum(x, hi), hi)
        lo = np.where(f < 0, np.maximum(x, lo), lo)
        den = d + np.sqrt(np.abs(16 * d * d - 20 * f * dd))
        with np.errstate(all="ignore"):
            xn = x - 5 * f / den
        bad = ~((xn >= lo) & (xn <= hi))
        xn = np.where(bad, (lo + hi) / 2, xn)
        xn = np.where(f == 0, x, xn)
        conv = np.abs(xn - x) <= L(4e-19) * np.abs(xn)
        x = np.where(done, x, xn)
        done = done | conv | (f == 0)
        if done.all():
            break
    return x.reshape(shape)


class Arc:
    """Two-body arc r0, v0 -> r, v after time t, and all intermediate quantities."""

    def __init__(self, t, r, v, mu):
        r, v = ld(r), ld(v)
        mu, t = ld(mu), ld(t)
        self.mu, self.t = mu, t
        self.sm = np.sqrt(mu)
        self.r0 = norm(r)
        self.v0 = norm(v)
        self.alpha = 2 / self.r0 - self.v0**2 / mu
        self.s0 = dot(r, v) / self.sm
        self.T = self.sm * t
        self.chi = solve_uni(self.T, self.alpha, self.r0, self.s0)
        self.U = u = ufuncs(self.chi, self.alpha)
        self.R = self.r0 * u[0] + self.s0 * u[1] + u[2]
        self.F = 1 - u[2] / self.r0
        self.G = (self.r0 * u[1] + self.s0 * u[2]) / self.sm
        self.Ft = -self.sm / (self.R * self.r0) * u[1]
        self.Gt = 1 - u[2] / self.R
        self.r = self.F[..., None] * r + self.G[..., None] * v
        self.v = self.Ft[..., None] * r + self.Gt[..., None] * v
        self.sigma = self.s0 * u[0] + (1 - self.alpha * self.r0) * u[1]

    def residual_scale(self):
        """Magnitude of the terms whose cancellation limits chi (units of sqrt(mu) t)."""
        x = 1 + np.sqrt(np.abs(self.alpha)) * np.abs(self.chi)
        u = self.U
        return x * (
            np.abs(self.r0 * u[1])
            + np.abs(self.s0 * u[2])
            + np.abs(u[3])
            + np.abs(self.T)
            + self.R * np.abs(self.chi)
        )


def kepler_state(t, r, v, mu):
    a = Arc(t, r, v, mu)
    return a.r, a.v


def rot(axis, ang):
    c, s = np.cos(ld(ang)), np.sin(ld(ang))
    m = np.zeros((3, 3), dtype=L)
    i, j, k = axis, (axis + 1) % 3, (axis + 2) % 3
    m[i, i] = 1
    m[j, j] = c
    m[k, k] = c
    m[j, k] = -s
    m[k, j] = s
    return m


def coe_state(p, e, i, O, w, f, mu):
    p, e, f, mu = ld(p), ld(e), ld(f), ld(mu)
    c, s = np.cos(f), np.sin(f)
    r = p / (1 + e * c) * np.array([c, s, 0], dtype=L)
    v = np.sqrt(mu / p) * np.array([-s, e + c, 0], dtype=L)
    m = rot(2, O) @ rot(0, i) @ rot(2, w)
    return m @ r, m @ v


def zonal_acc(n, x, mu, J, R):
    """Gradient of the potential term -mu/r J (R/r)^n P_n(z/r), by complex-step differentiation.

    n = 0 with J = -1 is the point mass.
    """
    x = ld(x)[:3]
    mu, J, R = ld(mu), ld(J), ld(R)
    h = norm(x) * L(1e-30)
    X = x.astype(np.clongdouble) + 1j * h * np.eye(3)
    r = np.sqrt(np.sum(X * X, axis=-1))
    s = X[:, 2] / r
    p0, p1 = np.ones_like(s), s
    for k in range(1, n):
        p0, p1 = p1, ((2 * k + 1) * s * p1 - k * p0) / (k + 1)
    P = p1 if n else p0
    V = -mu / r * J * (R / r) ** n * P
    return V.imag / h


def angle_in_plane(a, b, h):
    """Angle from a to b counter-clockwise about h, in (-pi, pi]."""
    return np.arctan2(dot(cross(a, b), ld(h)) / norm(h), dot(ld(a), ld(b)))


def elements(r, v, mu):
    """(p, e, i, raan, argp, f) of one state from the geometric definitions; angles mod 2 pi."""
    r, v, mu = ld(r), ld(v), ld(mu)
    h = cross(r, v)
    e = cross(v, h) / mu - r / norm(r)
    n = np.array([-h[1], h[0], L(0)])
    if not n.any():
        n = np.array([1, 0, 0], dtype=L)
    ee = e if norm(e) > 0 else n
    return (
        dot(h, h) / mu, norm(e), np.arctan2(np.hypot(h[0], h[1]), h[2]),
        np.arctan2(n[1], n[0]), angle_in_plane(n, ee, h), angle_in_plane(ee, r, h),
    )


def wrap(a):
    """a modulo 2 pi, in [-pi, pi]."""
    a = ld(a)
    return a - 2 * PI * np.round(a / (2 * PI))


def _stumpff_c(psi):
    """As stumpff, for complex arguments (branch chosen on the real part)."""
    small = np.abs(psi.real) < 6
    ps = np.where(small, psi, 0)
    ser = []
    for n in range(6):
        s = np.ones_like(ps)
        for k in range(22, 0, -1):
            s = 1 - ps * s / L((n + 2 * k - 1) * (n + 2 * k))
        ser.append(s / FACT[n])
    pb = np.where(small, L(9), psi)
    pos = pb.real > 0
    q = np.sqrt(np.where(pos, pb, -pb))
    with np.errstate(over="ignore", invalid="ignore"):
        c0 = np.where(pos, np.cos(np.where(pos, q, 1)), np.cosh(np.where(pos, 1, q)))
        c1 = np.where(pos, np.sin(np.where(pos, q, 1)), np.sinh(np.where(pos, 1, q))) / q
    c2 = (1 - c0) / pb
    c3 = (1 - c1) / pb
    c4 = (L(1) / 2 - c2) / pb
    c5 = (L(1) / 6 - c3) / pb
    return [np.where(small, a, b) for a, b in zip(ser, (c0, c1, c2, c3, c4, c5))]


def kepler_jac(t, r, v, mu):
    """d(r, v)/d(r0, v0, t, mu), shape (6, 8), by complex-step differentiation (no truncation)."""
    C = np.clongdouble
    base = np.concatenate([ld(r), ld(v), ld([t]), ld([mu])])
    h = np.array([norm(r)] * 3 + [norm(v)] * 3 + [np.maximum(abs(ld(t)), L(1e-3) * norm(r) / norm(v)), ld(mu)], dtype=L) * L(1e-30)
    X = np.broadcast_to(base, (8, 8)).astype(C)
    X = X + 1j * np.diag(h).astype(C)
    r_, v_, t_, m_ = X[:, :3], X[:, 3:6], X[:, 6], X[:, 7]
    dotc = lambda a, b: np.sum(a * b, axis=-1)
    r0 = np.sqrt(dotc(r_, r_))
    sm = np.sqrt(m_)
    al = 2 / r0 - dotc(v_, v_) / m_
    s0 = dotc(r_, v_) / sm
    chi = solve_uni((sm * t_).real[0], al.real[0], r0.real[0], s0.real[0]) * np.ones(8, dtype=C)

    def U(x):
        c = _stumpff_c(al * x * x)
        return [c[n] * x**n for n in range(6)]

    u = U(chi)
    f = r0 * u[1] + s0 * u[2] + u[3] - sm * t_
    R = r0 * u[0] + s0 * u[1] + u[2]
    chi = chi - 1j * (f.imag / R.real)
    u = U(chi)
    R = r0 * u[0] + s0 * u[1] + u[2]
    F, G = 1 - u[2] / r0, (r0 * u[1] + s0 * u[2]) / sm
    Ft, Gt = -sm / (R * r0) * u[1], 1 - u[2] / R
    Y = np.concatenate([F[:, None] * r_ + G[:, None] * v_, Ft[:, None] * r_ + Gt[:, None] * v_], axis=-1)
    return (Y.imag / h[:, None]).T
