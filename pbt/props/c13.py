"""C13: rotation matrices are right-handed rotations by the given angle."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import refs
from refs import L

NAMES = ["rotmat3dx", "rotmat3dy", "rotmat3dz"]


def angles(x64):
    big = 1e6 if x64 else 3e3
    return st.one_of(gen.f_(-3.2, 3.2), gen.f_(-3.2, 3.2), gen.angle, gen.f_(-big, big), gen.logf(1e-12, 1), gen.logf(1e-12, 1).map(lambda x: -x),
                     st.integers(-40, 40).map(lambda k: k * np.pi / 4))


def ref(ax, t):
    t = np.asarray(t, dtype=L)
    M = np.zeros(t.shape + (3, 3), dtype=L)
    i, j = (ax + 1) % 3, (ax + 2) % 3
    M[..., ax, ax] = 1
    M[..., i, i] = M[..., j, j] = np.cos(t)
    M[..., j, i] = np.sin(t)
    M[..., i, j] = -np.sin(t)
    return M


@leg("C13", "rotations")
def rotations(cx):
    eager = [cx.get("utils." + n) for n in NAMES]
    jits = [cx.jit("utils." + n) for n in NAMES]
    strat = st.fixed_dictionaries(dict(
        ax=st.integers(0, 2), a=angles(cx.x64), b=angles(cx.x64), x=st.lists(gen.f_(-10, 10), min_size=3, max_size=3),
        more=st.lists(angles(cx.x64), min_size=4, max_size=4), shape=st.sampled_from([None, None, [1], [2], [4], [2, 2], [1, 3], [2, 1, 2], [0]]),
        eager=st.sampled_from([False, False, False, True]),
    ))

    def check(cx, c):
        d, eps = cx.dt, L(cx.eps)
        ax = c["ax"]
        f = (eager if c["eager"] else jits)[ax]
        name = NAMES[ax]
        R = lambda t: cx.call(f, t, what=name)
        a, b = d(c["a"]), d(c["b"])
        A, B = R(a), R(b)
        info = dict(a=float(a), b=float(b))
        cx.true(A.shape == (3, 3) and A.dtype == d, f"{name}: a 3x3 matrix of the session precision", shape=A.shape, dtype=str(A.dtype))
        # sin and cos are accurate to a few ulp of one after range reduction
        t = 8 * eps
        AL, BL = A.astype(L), B.astype(L)
        x = refs.ld(cx.a(c["x"]))
        axis = np.eye(3)[ax]
        cx.close(A @ axis.astype(d), axis, np.zeros(3), f"{name} leaves its axis fixed", **info)
        cx.close(A.T @ axis.astype(d), axis, np.zeros(3), f"{name} has no component along its axis from other directions", **info)
        cx.close(AL @ AL.T, np.eye(3), np.full((3, 3), 4 * t), f"{name} is orthogonal", **info)
        cx.close(np.dot(AL[:, 0], refs.cross(AL[:, 1], AL[:, 2])), L(1), 8 * t, f"{name} has determinant one", **info)
        # counter-clockwise turn: for x perpendicular to the axis, x.Rx = cos, axis.(x x Rx) = sin
        w = x - x[ax] * axis
        if refs.norm(w) > 0.01:
            w = w / refs.norm(w)
            y = AL @ w
            cx.close(refs.dot(w, y), np.cos(L(a)), 4 * t, f"{name} turns by the given angle (cosine)", **info)
            cx.close(refs.cross(w, y)[ax], np.sin(L(a)), 4 * t, f"{name} turns counter-clockwise by the given angle (sine)", **info)
        cx.close(refs.norm(AL @ x), refs.norm(x), 8 * t * (refs.norm(x) + 1e-30), f"{name} keeps lengths", **info)
        ab = d(L(a) + L(b))
        fine = 2 * L(np.finfo(L).eps) * (abs(L(a)) + abs(L(b)) + 7)  # rounding of these sums themselves
        slop = abs(L(ab) - (L(a) + L(b))) + fine + 8 * t
        cx.close(AL @ BL, R(ab).astype(L), np.full((3, 3), slop), f"{name}: angles add under composition", **info)
        cx.close(R(-a), A.T, np.full((3, 3), t), f"{name}: the transpose is the rotation by the opposite angle", **info)
        turn = d(L(a) + 2 * refs.PI)
        cx.close(R(turn), A, np.full((3, 3), abs(L(turn) - L(a) - 2 * refs.PI) + fine + 4 * t), f"{name}: a whole turn changes nothing", **info)
        cx.close(A, ref(ax, L(a)), np.full((3, 3), t), f"{name}: matrix of the rotation", **info)
        if c["shape"] is not None:
            vals = cx.a((c["more"] * 2)[: int(np.prod(c["shape"]))]).reshape(c["shape"])
            got = R(vals)
            cx.true(got.shape == vals.shape + (3, 3) and got.dtype == d, f"{name}: one matrix per angle", shape=got.shape, angles=vals.shape)
            if vals.size:
                cx.close(got, ref(ax, vals), np.full(got.shape, t), f"{name}: matrices of an array of angles", angles=vals.tolist())
        return abs(np.sin(L(a))) > 1e-3

    return strat, check
