"""C11: broadcast evaluation equals element-by-element evaluation."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import api
import gen

SHAPES = [(), (1,), (2,), (3,), (4,), (2, 3), (3, 1), (3, 3), (2, 1, 3), (4, 1, 2), (1, 1), (0,), (17,), (65,), (2, 1, 2, 3)]


def arg_shapes(u, B):
    """A shape that broadcasts to B: full, scalar, leading axes dropped, or an axis of size one."""
    if u < 0.35 or not B:
        return list(B)
    if u < 0.55:
        return []
    if u < 0.75:
        return list(B[1:])
    k = int((u - 0.75) * 4 * len(B))
    return [1 if i == k else n for i, n in enumerate(B)]


def fill(fn, rng, B, shapes, integers=False):
    """Values per argument; then joint special elements at random slots."""
    vals = []
    for a, s in zip(fn.args, shapes):
        n = int(np.prod(s, dtype=int))
        vals.append([a.integer(rng) if integers else a.value(rng) for _ in range(n)])
    size = int(np.prod(B, dtype=int))
    if size and fn.specials and rng.random() < 0.6:
        for _ in range(1 + int(rng.integers(2))):
            slot = np.unravel_index(int(rng.integers(size)), B) if B else ()
            sp = fn.specials[int(rng.integers(len(fn.specials)))]
            for v, s, x in zip(vals, shapes, sp):
                v[index(slot, s)] = x
    if size > 1 and rng.random() < 0.2:
        # one element outside the domain must not reach the others
        i = int(rng.integers(len(vals)))
        if vals[i] and fn.args[i].kind != "A":
            k = int(rng.integers(len(vals[i])))
            x, z = vals[i][k], int(rng.integers(4))
            bad = {0: lambda v: None, 1: lambda v: 0.0, 2: lambda v: -v, 3: lambda v: 1e30 * v}[z]
            vals[i][k] = [bad(v) for v in x] if isinstance(x, list) else bad(x)
    return vals


def index(slot, s):
    """Flat position in an argument of shape s that broadcasting reads for this slot of the result."""
    k = len(slot) - len(s)
    i = tuple(0 if n == 1 else slot[k + j] for j, n in enumerate(s))
    return int(np.ravel_multi_index(i, s)) if s else 0


def cases():
    def dec(t):
        f, b, seed = t
        fn = api.BROADCAST[int(f * len(api.BROADCAST))]
        B = SHAPES[int(b * len(SHAPES))]
        rng = np.random.default_rng(int(seed * 2**24))
        shapes = [[] if a.kind == "A" else arg_shapes(rng.random(), B) for a in fn.args]
        # occasionally leave trailing optional arguments at their defaults
        n = len(fn.args)
        while n > 1 and fn.args[n - 1].default is not None and rng.random() < 0.25:
            n -= 1
        return dict(fn=fn.name, B=list(B), shapes=shapes[:n], v=fill(fn, rng, B, shapes)[:n])

    return gen.uniforms(3).map(dec)


def array(cx, a, s, v, col):
    x = np.asarray(v, dtype=cx.dt)
    if a.kind == "V":
        return x.reshape(tuple(s) + (3,))
    if a.kind == "C":
        return x.reshape(tuple(s) + (1,)) if s or col else x.reshape(())
    return x.reshape(tuple(s))


def result_shape(fn, k, B):
    return tuple(B) + {"S": (), "ang": (), "C": (1,), "angC": (1,), "V": (3,), "M": (3, 3)}[fn.out[k]]


def check(cx, c):
    fn = api.BY_NAME[c["fn"]]
    n = len(c["v"])
    args = [array(cx, a, s, v, False) for a, s, v in zip(fn.args, c["shapes"], c["v"])]
    B = np.broadcast_shapes(*(tuple(s) for s in c["shapes"]))
    f = cx.jit(fn.name) if fn.heavy else cx.get(fn.name)
    got = api.outputs(fn, cx.call(f, *(cx.jnp.asarray(x) for x in args), what=fn.name))
    info = dict(fn=fn.name, shapes=[list(x.shape) for x in args])
    cx.true(len(got) == len(fn.out), "number of results", **info)
    # position (from elements) and orientation (from the state) do not depend on mu, and need not take its shape
    for k, g in enumerate(got):
        full = result_shape(fn, k, B)
        allowed = {full}
        if (fn.name, k) in (("coe2rv", 0), ("rv2coe", 2), ("rv2coe", 3)):
            allowed.add(result_shape(fn, k, np.broadcast_shapes(*(tuple(s) for a, s in zip(fn.args, c["shapes"]) if a.name != "mu"))))
        cx.true(g.shape in allowed, f"{fn.name}: result shape {g.shape}, expected {full}", **info)
        got[k] = np.broadcast_to(g, full)
    one = cx.jit(fn.name)
    slots = list(np.ndindex(*B))
    nontrivial = 0
    for slot in slots:
        el = [cx.a(v[index(slot, s)]) for s, v in zip(c["shapes"], c["v"])]
        rest = [a.default for a in fn.args[n:]]
        if not all(np.all(np.abs(x) < 1e20) for x in el) or not fn.ok([np.asarray(x) for x in el] + rest):
            continue
        if any(a.kind == "V" and not np.any(x) for a, x in zip(fn.args, el)):
            continue
        want = cx.call(one, *el, what=fn.name + " (one element)")
        mine = [g[slot] for g in got]
        if fn.out[0] in ("C", "angC"):
            want = [np.asarray(want).reshape(1)]
        api.same(cx, fn, mine if fn.multi else mine[0], want if fn.multi else (want[0] if fn.out[0] in ("C", "angC") else want),
                 f"{fn.name}: slot {tuple(int(i) for i in slot)} against the element alone", element=[x.tolist() for x in el], **info)
        nontrivial += 1
    return nontrivial >= 2


@leg("C11", "elements")
def elements(cx):
    return cases(), check


@leg("C11", "ktimes")
def ktimes(cx):
    """prop.kepler over a vector of times against one time at a time; each time alone sets its state."""
    def dec(t):
        n, seed = t
        rng = np.random.default_rng(seed)
        fn = api.BY_NAME["prop.kepler"]
        for _ in range(50):
            v = fn.random(rng)
            if fn.ok(v):
                break
        ts = [float(x) for x in rng.uniform(-6, 6, n)]
        if n > 1 and rng.random() < 0.5:
            ts[int(rng.integers(n))] = 0.0
        if n > 2 and rng.random() < 0.4:
            ts[0] = ts[-1]
        if n > 1 and rng.random() < 0.4:
            ts[int(rng.integers(n))] *= 1e3 if rng.random() < 0.5 else 1e-6
        return dict(ts=ts, r=v[1], v=v[2], mu=v[3])

    j = cx.jit("prop.kepler")
    fn = api.BY_NAME["prop.kepler"]

    def chk(cx, c):
        r, v, mu = cx.a(c["r"]), cx.a(c["v"]), cx.a(c["mu"])
        ts = cx.a(c["ts"])
        got = cx.call(j, ts, r, v, mu, what="kepler")
        for g in got:
            cx.true(g.shape == (len(ts), 3), f"kepler: result shape {g.shape} for {len(ts)} times")
        if not fn.ok([0.0, r, v, mu]):
            return False
        for i, t in enumerate(ts):
            one = cx.call(j, t[None], r, v, mu, what="kepler (one time)")
            alone = cx.call(j, t, r, v, mu, what="kepler (scalar time)")
            for k, nm in enumerate(("position", "velocity")):
                g, w, w2 = got[k][i], one[k][0], alone[k]
                w2 = np.asarray(w2).reshape(3)
                tol = api.tolerance(cx) * (1 + np.abs(w).max()) * (1 + abs(float(t)))
                cx.close(g, w, tol, f"kepler {nm} at one of several times against that time alone", t=float(t), r=r.tolist(), v=v.tolist(), mu=float(mu), ts=ts.tolist())
                cx.close(w2, w, tol, f"kepler {nm} at a scalar time against a vector of one time", t=float(t), r=r.tolist(), v=v.tolist(), mu=float(mu))
        return len(ts) > 1

    return st.tuples(st.sampled_from([1, 2, 3, 5]), st.integers(0, 2**24)).map(dec), chk
