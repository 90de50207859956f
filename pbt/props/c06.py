"""C06: the state transition matrix is the true sensitivity of the two-body flow."""
from math import factorial
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import refs
from refs import L
from props.c03 import term_sizes

K = 32
BLOCKS = (("rr", slice(0, 3), slice(0, 3)), ("rv", slice(0, 3), slice(3, 6)), ("vr", slice(3, 6), slice(0, 3)), ("vv", slice(3, 6), slice(3, 6)))


class Bound:
    """First-order rounding bound of the closed form, per block, for an arc (reference quantities)."""

    def __init__(self, cx, a, known_chi=False):
        eps = L(cx.eps)
        v = refs.norm(a.v)
        r, r0, v0, mu, sm = a.R, a.r0, a.v0, a.mu, a.sm
        chi = abs(a.chi)
        x = np.sqrt(abs(a.alpha)) * chi
        T = abs(a.T)
        dal = 2 * eps * (2 / r0 + v0**2 / mu)
        dchi = T * dal + eps * abs(a.alpha) * T + 3 * eps * (r * v + r0 * v0) / sm
        # the reference final state is itself off by a time slip of 80-bit rounding
        slip = L(np.finfo(L).eps) * a.residual_scale()
        dchi += slip * abs(1 - a.alpha * r) / r
        if known_chi:
            dchi = eps * chi
        U = [abs(k) for k in a.U]
        if x < 1:
            S = [chi**n / L(factorial(n)) for n in range(6)]
            da = [(n * chi ** (n + 2) / L(factorial(n + 2)) + chi ** (n + 2) / L(factorial(n + 1))) / 2 for n in range(6)]
        else:
            S = [k for k in term_sizes(np.array([chi]), a.alpha)]
            S = [k[0] for k in S]
            da = [(n * S[n] + chi * (S[n - 1] if n else abs(a.alpha) * S[1])) / abs(a.alpha) for n in range(6)]
        dU = [(U[n - 1] if n else abs(a.alpha) * U[1]) * dchi + dal * da[n] + eps * (1 + x) * S[n] for n in range(6)]
        self.C = C = (3 * a.U[5] - a.chi * a.U[4] - a.T * a.U[2]) / sm
        sC = (3 * U[5] + chi * U[4] + T * U[2]) / sm
        dC = (3 * dU[5] + dchi * U[4] + chi * dU[4] + T * dU[2]) / sm + eps * sC
        dC += slip * U[2] / sm / 8  # the reference's own time slip (bounds are taken K-fold)
        self.dC = dC
        dF = dU[2] / r0 + eps * (1 + U[2] / r0)
        dG = (r0 * dU[1] + abs(a.s0) * dU[2] + 3 * eps * r0 * v0 / sm * U[2]) / sm + eps * (r0 * U[1] + abs(a.s0) * U[2]) / sm
        dFt = sm / (r * r0) * (dU[1] + 3 * eps * U[1])
        dGt = dU[2] / r + eps * (1 + 3 * U[2] / r)
        D = refs.norm(a.v - a.vi)
        Dr = refs.norm(a.r - a.ri)
        nD = eps * (v + v0)
        oF = abs(1 - a.F)
        aC = abs(C)
        self.tol = dict(
            rr=r / mu * (2 * D * nD + 3 * eps * D * D) + (dF + 4 * eps * oF) * r / r0 + (dC + 4 * eps * aC) * v / r0**2 + dF + eps * abs(a.F),
            rv=r0 / mu * ((dF + 3 * eps * oF) * (Dr * v0 + D * r0) + oF * (eps * (r + r0) * v0 + nD * r0))
            + (dC + 4 * eps * aC) * v * v0 / mu + dG + eps * abs(a.G),
            vr=(nD + 4 * eps * D) * (1 / r0 + 1 / r) + abs(a.Ft) * (8 * eps * (1 + r * v * D / mu) + 2 * r * v * nD / mu)
            + dFt * (2 + 2 * r * v * D / mu) + mu * (dC + 6 * eps * aC) / (r * r * r0 * r0),
            vv=r0 / mu * (2 * D * nD + 3 * eps * D * D) + (dF + 5 * eps * oF) * r0**2 / r**2 + (dC + 4 * eps * aC) * v0 / r**2 + dGt + eps * abs(a.Gt),
        )


def arc(cx, c):
    r, v, mu = gen.state(cx, c["orb"])
    t = gen.tof(cx, c["orb"], c["t"])
    a = refs.Arc(t, r, v, mu)
    a.ri, a.vi = refs.ld(r), refs.ld(v)
    return r, v, mu, t, a


def sympl(M):
    J = np.zeros((6, 6), dtype=L)
    J[:3, 3:], J[3:, :3] = np.eye(3), -np.eye(3)
    return M.T @ J @ M - J


@leg("C06", "stm")
def stm(cx):
    strat = st.fixed_dictionaries(dict(orb=gen.orbit(cx.x64), t=gen.TOF, d=st.booleans()))
    j = cx.jit("twobody.dxdx0")

    def check(cx, c):
        if c["d"]:
            c = dict(c, orb=dict(c["orb"], mu=1.0))
        r0, v0, mu, t, a = arc(cx, c)
        r, v = a.r.astype(cx.dt), a.v.astype(cx.dt)
        if np.sqrt(abs(a.alpha)) * abs(a.chi) > (300 if cx.x64 else 28):
            return False
        got = cx.call(j, r, v, r0, v0, t, *(() if c["d"] else (mu,)), what="dxdx0")
        info = dict(r0=r0.tolist(), v0=v0.tolist(), mu=float(mu), t=float(t))
        cx.true(got.shape == (6, 6) and got.dtype == cx.dt, "transition matrix shape and dtype", shape=got.shape, dtype=str(got.dtype))
        want = refs.kepler_jac(t, r0, v0, mu)[:, :6]
        b = Bound(cx, a)
        tight = True
        for n, i, k in BLOCKS:
            ref = want[i, k]
            tol = K * b.tol[n]
            cx.close(got[i, k], ref, tol, f"block d{n[0]}/d{n[1]}0 of the transition matrix", **info)
            tight &= bool(tol <= 0.01 * np.abs(ref).max())
        if t == 0:
            cx.close(got, np.eye(6), K * np.block([[np.full((3, 3), b.tol["rr"]), np.full((3, 3), b.tol["rv"])], [np.full((3, 3), b.tol["vr"]), np.full((3, 3), b.tol["vv"])]]), "transition matrix of a zero arc is the identity", **info)
        if tight:
            g = got.astype(L)
            E = np.block([[np.full((3, 3), b.tol["rr"]), np.full((3, 3), b.tol["rv"])], [np.full((3, 3), b.tol["vr"]), np.full((3, 3), b.tol["vv"])]])
            A = np.abs(g)
            P = np.zeros((6, 6), dtype=L)
            P[:3, 3:], P[3:, :3] = np.eye(3), np.eye(3)
            lim = K * (E.T @ P @ A + A.T @ P @ E)
            cx.close(sympl(g), np.zeros((6, 6)), lim, "transition matrix is symplectic", **info)
        return bool(tight and t != 0)

    return strat, check


@leg("C06", "formulas")
def formulas(cx):
    """The four blocks and C from the Lagrange coefficients of a true arc."""
    strat = st.fixed_dictionaries(dict(orb=gen.orbit(cx.x64), t=gen.TOF, d=st.booleans()))

    def check(cx, c):
        if c["d"]:
            c = dict(c, orb=dict(c["orb"], mu=1.0))
        r0, v0, mu, t, a = arc(cx, c)
        d = cx.dt
        r, v = a.r.astype(d), a.v.astype(d)
        eps = L(cx.eps)
        if np.sqrt(abs(a.alpha)) * abs(a.chi) > (300 if cx.x64 else 28):
            return False
        b = Bound(cx, a, known_chi=True)
        info = dict(r0=r0.tolist(), v0=v0.tolist(), mu=float(mu), t=float(t))
        m = () if c["d"] else (mu,)
        chi, u2, u4, u5 = (d(k) for k in (a.chi, a.U[2], a.U[4], a.U[5]))
        sm = np.sqrt(L(mu))
        C = (3 * L(u5) - L(chi) * L(u4) - sm * L(t) * L(u2)) / sm
        sC = (3 * abs(L(u5)) + abs(L(chi) * L(u4)) + abs(sm * L(t) * L(u2))) / sm
        got = cx.call(cx.jit("twobody.C_func"), chi, u2, u4, u5, t, *m, what="C_func")
        cx.close(got, C, K * eps * sC, "C function", args=[float(k) for k in (chi, u2, u4, u5, t, mu)])
        F, G, Ft, Gt, Cd = (d(k) for k in (a.F, a.G, a.Ft, a.Gt, b.C))
        want = refs.kepler_jac(t, r0, v0, mu)[:, :6]
        calls = dict(rr=("prpr0", (F, Cd)), rv=("prpv0", (F, G, Cd)), vr=("pvpr0", (Ft, Cd)), vv=("pvpv0", (F, Gt, Cd)))
        tight = True
        for n, i, k in BLOCKS:
            f, x = calls[n]
            got = cx.call(cx.jit("twobody." + f), r, v, r0, v0, *x, *m, what=f)
            cx.close(got, want[i, k], K * b.tol[n], f"{f} of a true arc", **info)
            tight &= bool(K * b.tol[n] <= 0.01 * np.abs(want[i, k]).max())
        return bool(tight and t != 0)

    return strat, check
