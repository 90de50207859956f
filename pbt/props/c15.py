"""C15: results depend only on arguments.  Random histories of calls against a fresh copy of the library.

A case is a list of operations (calls of the public functions in several styles, repeats, failing
calls, mutation of objects the caller passed or received).  After every operation the arguments, the
defaults and the global settings must be untouched; a repeat must give the identical result; and
every first result must agree with a freshly imported library that has no history.
"""
import copy
import inspect
import os
import random as pyrandom
import sys
import types
import numpy as np
from hypothesis import strategies as st
from core import leg, Violation
import core
import api
import gen
from props import c16

FASTFN = [f for f in api.FUNCTIONS if f.name not in c16.SLOW_EAGER]
GRAV = sorted(c16.GRAV)


# ---- generation -----------------------------------------------------------------------------------
def gen_call(rng, fn, slow=False):
    how = c16.pick(rng, ["jit"] * 19 + ["eager"]) if slow else c16.pick(rng, ["eager", "eager", "jit", "vmap"] + ["batch"] * (1 + fn.broadcast))
    if how == "batch" and not fn.broadcast:
        how = "eager"
    omit = 0
    k = len(fn.args)
    while k > 1 and fn.args[k - 1].default is not None and rng.random() < 0.3:
        k -= 1
        omit += 1
    return dict(op="call", f=fn.name, v=fn.random(rng)[:k], how=how, rep=c16.pick(rng, ["np", "jnp"]))


def gen_grav(rng, n):
    x = api.vec(rng.random(4)) + [float(v) for v in rng.uniform(-1, 1, 3)]
    p = {k: float({"mu": 0.3 + 3 * rng.random(), "R_eq": 0.5 + rng.random(), "rmin": 2 * rng.random()}.get(k, rng.uniform(-1, 1))) for k in c16.GRAV[n]}
    p.update(unrelated(rng))
    return dict(op="grav", f=n, x=x, p=None if rng.random() < 0.35 else p, how=c16.pick(rng, ["eager", "jit"]), rep=c16.pick(rng, ["np", "jnp"]))


# names a force model of the caller's own may use, and the library must leave alone
NAMES = ["t0", "t1", "dt", "dt0", "ts", "tol", "rtol", "atol", "max_steps", "terms", "event", "args", "mu_", "r", "v", "R", "J5", "C22", "extra", "cache", "n"]


def unrelated(rng):
    if rng.random() < 0.6:
        return {}
    return {k: float(c16.pick(rng, [0.1, 0.5, 1.5, 3.0])) for k in NAMES if rng.random() < 0.7}


def gen_prop(rng):
    r = np.array(api.vec(rng.random(4)))
    r = r / np.linalg.norm(r) * (0.9 + 0.3 * rng.random())
    w = np.cross(r, rng.normal(size=3))
    v = w / np.linalg.norm(w) * (0.75 + 0.4 * rng.random()) + 0.1 * r
    return dict(
        op="prop", entry=c16.pick(rng, c16.ENTRY), x=[float(k) for k in list(r) + list(v)], t1=float(c16.pick(rng, [0.5, 1.0, 2.0, 3.0])),
        mu=None if rng.random() < 0.4 else float(c16.pick(rng, [0.9, 1.0, 1.1])), rmin=float(c16.pick(rng, [0.0, 0.8])), rep=c16.pick(rng, ["np", "jnp"]),
        more=unrelated(rng), same=bool(rng.random() < 0.5),
    )


def near(rng, v):
    """A value that a cache with a rounded key takes for the same."""
    return [near(rng, k) for k in v] if isinstance(v, list) else float(v * (1 + 10 ** rng.uniform(-9, -3)))


def vary(rng, o):
    """The same call with one ingredient changed: what a cache with an incomplete key confuses."""
    if rng.random() < 0.3:
        if o["op"] == "call":
            fn = api.BY_NAME[o["f"]]
            return dict(o, v=[v if a.kind == "P" else near(rng, v) for a, v in zip(fn.args, o["v"])])
        if o["op"] == "grav" and o["p"] and rng.random() < 0.5:
            return dict(o, p={k: near(rng, v) for k, v in o["p"].items()})
        return dict(o, x=near(rng, o["x"]))
    if o["op"] == "call":
        fn = api.BY_NAME[o["f"]]
        new = gen_call(rng, fn, o["how"] == "jit" and fn.name in c16.SLOW_EAGER)
        k = len(o["v"])
        v = fn.random(rng)[:k]
        i = int(rng.integers(k))
        return dict(o, v=[v[j] if j == i else o["v"][j] for j in range(k)], how=new["how"], rep=new["rep"])
    new = gen_grav(rng, o["f"]) if o["op"] == "grav" else gen_prop(rng)
    if o["op"] == "grav" and o["p"] and new["p"] and rng.random() < 0.7:
        k = c16.pick(rng, sorted(set(o["p"]) & set(new["p"])))
        return dict(o, p=dict(o["p"], **{k: new["p"][k]}), how=c16.pick(rng, [o["how"], new["how"]]))
    k = c16.pick(rng, [k for k in o if k not in ("op", "f", "same")])
    return dict(o, **{k: new[k]})


FAILS = ["shape", "key", "none", "maxsteps", "raises", "eagerbool", "nan", "str"]


def gen_history(u, kind):
    rng = np.random.default_rng(int(u[0] * 2**24) + (int(u[1] * 2**20) << 24))
    ops = []
    n = 5 + int(rng.integers(7))
    main = GRAV[int(rng.integers(len(GRAV)))]
    fns = [FASTFN[int(rng.integers(len(FASTFN)))] for _ in range(2)]
    slow = [api.BY_NAME[k] for k in sorted(c16.SLOW_EAGER)]
    for _ in range(n):
        z = rng.random()
        calls = [i for i, o in enumerate(ops) if o["op"] in ("call", "grav", "prop")]
        if z < 0.2 and calls:
            ops.append(dict(op="again", of=c16.pick(rng, calls)))
        elif z < 0.3:
            ops.append(dict(op="fail", kind=c16.pick(rng, FAILS)))
        elif z < 0.4 and calls:
            ops.append(dict(op="mutate", of=c16.pick(rng, calls)))
        elif z < 0.6 and calls:
            ops.append(vary(rng, ops[c16.pick(rng, calls)]))
        elif kind == "calls":
            ops.append(gen_call(rng, fns[int(rng.integers(2))]))
        elif kind == "solvers":
            ops.append(gen_call(rng, c16.pick(rng, slow), slow=True))
        elif kind == "forces":
            ops.append(gen_grav(rng, main if rng.random() < 0.7 else GRAV[int(rng.integers(len(GRAV)))]))
        else:
            ops.append(gen_prop(rng))
    return dict(ops=ops)


# ---- a second, fresh copy of the library ------------------------------------------------------------
class Fresh:
    """astrodynx imported anew (module state without history); the session's copy stays in place."""

    def __enter__(self):
        self.saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "astrodynx" or k.startswith("astrodynx.")}
        if "astrodynx._version" in self.saved:
            sys.modules["astrodynx._version"] = self.saved["astrodynx._version"]
        return core.load_astrodynx()

    def __exit__(self, *_):
        for k in list(sys.modules):
            if k == "astrodynx" or k.startswith("astrodynx."):
                del sys.modules[k]
        sys.modules.update(self.saved)


def lookup(adx, name):
    for p in name.split("."):
        adx = getattr(adx, p)
    return adx


# ---- snapshots --------------------------------------------------------------------------------------
def freeze(x):
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.tobytes())
    return repr(x)


def defaults(adx):
    out = {}
    for n in sorted(api.public_names(adx)):
        o = lookup(adx, n)
        if inspect.isclass(o):
            out[n] = {k: freeze(f.default) for k, f in getattr(o, "__dataclass_fields__", {}).items() if k != "terms"}
        else:
            out[n] = {k: freeze(p.default) for k, p in inspect.signature(o).parameters.items() if p.default is not p.empty}
    return out


def settings(cx):
    return dict(
        jax={k: v for k, v in cx.jax.config.values.items() if isinstance(v, (int, float, str, bool, type(None)))},
        npe=np.geterr(), npp=repr(np.get_printoptions()), rnd=hash(np.random.get_state()[1].tobytes()), pos=np.random.get_state()[2], py=hash(pyrandom.getstate()),
        env=dict(os.environ), cwd=os.getcwd(), names=api.public_names(cx.adx), rec=sys.getrecursionlimit(),
    )


def restore(cx, s):
    """Put back what a call has changed, so that the next case can see it again."""
    for k, v in s["jax"].items():
        if cx.jax.config.values.get(k) != v:
            cx.jax.config.update(k, v)
    np.seterr(**s["npe"])


def warm_up(cx):
    """Libraries underneath astrodynx set some things up at their first use."""
    import diffrax as dx

    jax, jnp = cx.jax, cx.jnp
    jax.jit(lambda x: jax.lax.while_loop(lambda v: v[0] < 3, lambda v: (v[0] + 1, jnp.sin(v[1])), (0, x)))(jnp.ones(3))
    for n in (64, 2):
        try:
            dx.diffeqsolve(
                dx.ODETerm(lambda t, y, a: -y), dx.Tsit5(), 0, 1.0, None, jnp.ones(6), max_steps=n,
                stepsize_controller=dx.PIDController(rtol=1e-5, atol=1e-5), event=dx.Event(lambda t, y, a, **k: y[0] + 1),
            )
        except Exception:
            pass


def settings_diff(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            out.append(f"{k}: " + (str({q: (a[k].get(q), b[k].get(q)) for q in set(a[k]) | set(b[k]) if a[k].get(q) != b[k].get(q)}) if isinstance(a[k], dict) else f"{a[k]} -> {b[k]}"))
    return "; ".join(out)


# ---- execution ----------------------------------------------------------------------------------------
def build(cx, o):
    """Fresh argument objects for a call operation."""
    conv = (lambda v: np.array(cx.a(v))) if o.get("rep") == "np" else (lambda v: cx.jnp.array(cx.a(v)))
    if o["op"] == "call":
        fn = api.BY_NAME[o["f"]]
        # a batch of two equal elements, if asked for
        two = (lambda a, v: [[v], [v]] if a.kind == "C" else v if a.kind == "A" else [v, v]) if o["how"] == "batch" else (lambda a, v: v)
        return [v if a.kind == "P" else conv(two(a, v)) for a, v in zip(fn.args, o["v"])]
    if o["op"] == "grav":
        return [0.0, conv(o["x"])] + ([] if o["p"] is None else [dict(o["p"])])
    args = None if o["mu"] is None else dict(o["more"], mu=o["mu"], rmin=o["rmin"])
    return [conv(o["x"]), o["t1"], args, conv([k * o["t1"] / 3 for k in range(4)])]


def execute(cx, adx, o, args, jit, pool=None):
    """Run a call on a given copy of the library; jit(name) gives its compiled function.

    pool keeps the OrbDynx of earlier propagations, so that one object serves several calls."""
    if o["op"] in ("call", "grav"):
        f = lookup(adx, o["f"])
        if o["how"] == "jit":
            f = jit(o["f"])
        elif o["how"] == "vmap":
            k = [None if not hasattr(a, "dtype") else 0 for a in args]
            g = cx.jax.vmap(f, in_axes=tuple(k))
            raw = g(*[a[None] if hasattr(a, "dtype") else a for a in args])
            return [np.array(q)[0] for q in cx.jax.tree_util.tree_leaves(raw)]
        raw = f(*args)
        # a NumPy result is kept as it is, so that the caller can write to it later
        return [q if isinstance(q, np.ndarray) else np.array(q) for q in cx.jax.tree_util.tree_leaves(raw)]
    x, t1, a, at = args
    P, d = adx.prop, adx.diffeq
    vf = field(cx, adx)
    key = repr(a)
    o_ = pool[key][0] if pool is not None and o["same"] and key in pool else None
    if o_ is None:
        o_ = P.OrbDynx(terms=d.ODETerm(vf), event=d.Event(event(cx, adx)) if a else None, **({} if a is None else dict(args=a)))
        if pool is not None and o["same"]:
            # the dictionary of a pooled object is not one the caller changes later
            o_ = o_._replace(args=copy.deepcopy(o_.args))
            pool[key] = (o_, repr(o_.args))
    e = o["entry"]
    if e == "to_final":
        s = P.to_final(o_, x, t1)
    elif e == "adaptive_steps":
        s = P.adaptive_steps(o_, x, t1)
    elif e == "fixed_steps":
        s = P.fixed_steps(o_, x, t1, 0.125)
    elif e == "custom_steps":
        s = P.custom_steps(o_, x, t1, at)
    else:
        s = P.cowell_method(o_, x, t1, d.SaveAt(t1=True))
    ts, ys = np.array(s.ts), np.array(s.ys)
    k = np.isfinite(ts)
    return [ts[k], ys[k]]


def field(cx, adx):
    f = getattr(adx, "_verif_field", None)
    if f is None:
        jnp = cx.jnp

        def f(t, x, args):
            return jnp.concatenate([x[3:], adx.gravity.point_mass_grav(t, x, args)])

        adx._verif_field = f
    return f


def event(cx, adx):
    return adx.events.radius_islow


def intact(before, args, what):
    for b, a in zip(before, args):
        if hasattr(a, "is_deleted") and a.is_deleted():
            raise Violation(f"{what}: an argument's buffer was given away")
        if freeze(np.asarray(a) if hasattr(a, "dtype") else a) != b:
            raise Violation(f"{what}: an argument was modified: {b} -> {a}")


def fail(cx, adx, kind):
    jnp = cx.jnp
    try:
        if kind == "shape":
            adx.angular_momentum(jnp.ones(2), jnp.ones(5))
        elif kind == "key":
            adx.gravity.j2_acc(0.0, jnp.ones(6), {"mu": 3.0})
        elif kind == "none":
            adx.coe2rv(1.0, None, 0.0, 0.0, 0.0, 0.0)
        elif kind == "maxsteps":
            o = adx.prop.OrbDynx(terms=adx.diffeq.ODETerm(field(cx, adx)))
            adx.prop.adaptive_steps(o, jnp.array([1.0, 0, 0, 0, 1, 0]), 50.0, max_steps=3)
        elif kind == "raises":
            def bad(t, x, args):
                raise ValueError("user error")
            adx.prop.to_final(adx.prop.OrbDynx(terms=adx.diffeq.ODETerm(bad)), jnp.ones(6), 1.0)
        elif kind == "eagerbool":
            adx.solve_kepler_elps(jnp.ones(3), jnp.ones(2), 1e-6)
        elif kind == "nan":
            np.asarray(adx.rv2coe(jnp.zeros(3), jnp.zeros(3)))
        elif kind == "str":
            adx.orb_period("seven")
    except Exception:
        pass


def scribble(args, results):
    """What a caller may do with objects of its own after a call."""
    for a in args:
        if isinstance(a, np.ndarray):
            a[...] = 77.0
        elif isinstance(a, dict):
            for k in a:
                a[k] = 55.0
            a["junk"] = 1
    for r in results:
        if isinstance(r, np.ndarray) and r.flags.writeable:
            r[...] = -33


def history(cx, kind):
    base = {}

    def check(cx, c):
        adx = cx.adx
        if not base:
            # warm up lazily initialised settings of the libraries underneath
            # (without calling astrodynx, whose first call may be the one that changes something)
            warm_up(cx)
            base["d"], base["s"] = defaults(adx), settings(cx)
        before = settings(cx)
        record = {}
        repeats = 0
        pool = {}
        for i, o in enumerate(c["ops"]):
            src = i
            if o["op"] == "fail":
                fail(cx, adx, o["kind"])
            elif o["op"] == "mutate":
                if o["of"] in record:
                    scribble(record[o["of"]][0], record[o["of"]][2])
            else:
                if o["op"] == "again":
                    src = o["of"]
                    o = c["ops"][src]
                args = build(cx, o)
                frozen = [freeze(np.asarray(a) if hasattr(a, "dtype") else a) for a in args]
                try:
                    res = execute(cx, adx, o, args, cx.jit, pool)
                except Exception as e:
                    raise Violation(f"operation {i} {o} raised {type(e).__name__}: {str(e)[:300]}")
                intact(frozen, args, f"operation {i} {o}")
                for shared, then in pool.values():
                    cx.true(repr(shared.args) == then, f"operation {i} {o} changed the parameters of an OrbDynx", then=then, now=repr(shared.args))
                if src in record:
                    repeats += 1
                    for k, (a, b) in enumerate(zip(res, record[src][1])):
                        if a.dtype != b.dtype or a.shape != b.shape or a.tobytes() != b.tobytes():
                            raise Violation(f"operation {i} repeats operation {src} {o} and gives {a.tolist()} instead of {b.tolist()} (result {k})")
                else:
                    record[src] = (args, copy.deepcopy(res), res)
            after = settings(cx)
            if after != before:
                restore(cx, before)
                raise Violation(f"operation {i} {c['ops'][i]} changed global settings: {settings_diff(before, after)}")
            d = defaults(adx)
            if d != base["d"]:
                raise Violation(f"operation {i} {c['ops'][i]} changed the defaults of {[k for k in d if d[k] != base['d'].get(k)]}")
        # the same calls, each on a library without a history
        props = [i for i in record if c["ops"][i]["op"] == "prop"]
        for i, (args, res, _) in record.items():
            o = dict(c["ops"][i])
            if i in props[:-2]:
                continue  # compiling afresh is slow: the latest two have the longest history
            with Fresh() as new:
                jits = {}
                if o.get("f") in c16.SLOW_EAGER or o["op"] == "prop":
                    fresh_jit = lambda n: jits.setdefault(n, cx.jax.jit(lookup(new, n)))
                else:
                    o["how"] = "batch" if o.get("how") == "batch" else "eager"
                    fresh_jit = None
                try:
                    want = execute(cx, new, o, build(cx, o), fresh_jit)
                except Exception as e:
                    raise Violation(f"{o} raised {type(e).__name__} in a fresh library only: {str(e)[:300]}")
            if o["op"] == "call":
                fn = api.BY_NAME[o["f"]]
                if not fn.ok(o["v"] + [a.default for a in fn.args[len(o["v"]):]]):
                    continue
                if o["how"] == "batch":
                    # the two elements are equal: each row is the call with one of them
                    res, want = ([q[k] if q.ndim and q.shape[0] == 2 else q for q in z] for z, k in ((res, 1), (want, 0)))
                api.same(cx, fn, res if fn.multi else res[0], want if fn.multi else want[0], f"operation {i} ({o['f']}) in this history against the same call in a fresh library", op=o, ops=c["ops"])
            else:
                tol = (1e-9, 1e-4) if o["op"] == "grav" else (1e-6, 1e-3)
                for a, b in zip(res, want):
                    cx.close(a, b, tol[0 if cx.x64 else 1] * (1 + np.abs(b).max(initial=0)), f"operation {i} ({o.get('f') or o['entry']}) in this history against the same call in a fresh library", op=o)
        return len(record) >= 2 and repeats >= 1

    return gen.uniforms(2).map(lambda u: gen_history(u, kind)), check


for _kind in ("calls", "solvers", "forces", "propagators"):
    leg("C15", _kind)(lambda cx, k=_kind: history(cx, k))


@leg("C15", "neighbours")
def neighbours(cx):
    """Calls with nearly equal arguments, one after the other, against the reverse order in a fresh library."""
    names = [f.name for f in FASTFN] + GRAV

    def dec(u):
        rng = np.random.default_rng(int(u[1] * 2**24))
        n = names[int(u[0] * len(names))]
        if n in GRAV:
            o = gen_grav(rng, n)
            o["p"] = o["p"] or {k: 0.5 for k in c16.GRAV[n]}
            o["how"] = "eager"
        else:
            o = dict(gen_call(rng, api.BY_NAME[n]), how="eager")
        o["rep"] = c16.pick(rng, ["np", "jnp", "py"])
        return dict(o=o, by=[0.0] + [float(10 ** rng.uniform(a, a + 1)) for a in ((-5, -7, -9) if cx.x64 else (-3, -4, -5))])

    def moved(o, d):
        up = lambda v: [up(k) for k in v] if isinstance(v, list) else v * (1 + d)
        if o["op"] == "grav":
            return dict(o, x=up(o["x"]), p={k: up(v) for k, v in o["p"].items()})
        return dict(o, v=[v if a.kind == "P" else up(v) for a, v in zip(api.BY_NAME[o["f"]].args, o["v"])])

    def args(cx, o):
        a = build(cx, o)
        if o["rep"] == "py":
            a = [float(v) if hasattr(v, "dtype") and np.ndim(v) == 0 else v for v in a]
        return a

    def check(cx, c):
        ops = [moved(c["o"], d) for d in c["by"]]
        mine = []
        for o in ops:
            try:
                mine.append(execute(cx, cx.adx, o, args(cx, o), None))
            except Exception as e:
                raise Violation(f"{o} raised {type(e).__name__}: {str(e)[:300]}")
        with Fresh() as new:
            theirs = [execute(cx, new, o, args(cx, o), None) for o in reversed(ops)][::-1]
        for o, a, b in zip(ops, mine, theirs):
            for p, q in zip(a, b):
                same = p.dtype == q.dtype and p.shape == q.shape and np.array_equal(p, q, equal_nan=p.dtype.kind == "f")
                cx.true(same, f"{o['f']} after calls with nearly equal arguments gives {p.tolist()}, in a fresh library {q.tolist()}", op=o, by=c["by"])
        return True

    return gen.uniforms(2).map(dec), check


@leg("C15", "arguments")
def arguments(cx):
    """Every function on writable NumPy arrays and parameter dictionaries: left as they were, and good for a second call."""
    fns = [f.name for f in FASTFN] + GRAV + ["solve_kepler_elps", "prop.kepler"]

    def dec(u):
        rng = np.random.default_rng(int(u[1] * 2**24))
        n = fns[int(u[0] * len(fns))]
        if n in GRAV:
            o = gen_grav(rng, n)
            return dict(o, p=o["p"] or {k: 0.5 for k in c16.GRAV[n]}, how="eager", rep="np", m=0)
        fn = api.BY_NAME[n]
        m = int(rng.integers(4)) if fn.broadcast else 0
        rows = [fn.random(rng) for _ in range(max(m, 1))]
        # one number for all elements now and then, and larger angles than usual
        v = [[r[i] for r in rows] for i in range(len(fn.args))]
        return dict(op="call", f=n, v=v, m=m, kw=bool(rng.random() < 0.3))

    def check(cx, c):
        f = lookup(cx.adx, c["f"])
        if c["op"] == "grav":
            p = {k: np.array(cx.a(v)) for k, v in c["p"].items()}
            args, kw = [0.0, np.array(cx.a(c["x"])), p], {}
            arrays = [args[1], *p.values()]
        else:
            fn, m = api.BY_NAME[c["f"]], c["m"]
            args = []
            for a, v in zip(fn.args, c["v"]):
                if a.kind == "P":
                    args.append(v[0])
                elif not m or a.kind == "A":
                    args.append(np.array(cx.a(v[0])))
                else:
                    args.append(np.array(cx.a([[k] for k in v] if a.kind == "C" else v)))
            arrays = [a for a in args if isinstance(a, np.ndarray)]
            kw = dict(list(zip(names(f), args))[len(args) - 1:]) if c["kw"] else {}
            args = args[: len(args) - len(kw)]
        then = [(a.dtype, a.shape, a.tobytes()) for a in arrays]
        keys = list(args[2]) if c["op"] == "grav" else None
        ids = {k: id(v) for k, v in args[2].items()} if keys else None
        out = []
        for k in range(2):
            try:
                raw = f(*args, **kw)
            except Exception as e:
                raise Violation(f"{c['f']} raised {type(e).__name__}: {str(e)[:300]} on {c}")
            for i, (a, b) in enumerate(zip(arrays, then)):
                cx.true((a.dtype, a.shape, a.tobytes()) == b, f"{c['f']} modified array argument {i}", now=a.tolist(), was=np.frombuffer(b[2], dtype=b[0]).tolist(), case=c)
            if keys:
                cx.true(list(args[2]) == keys and all(id(v) == ids[q] for q, v in args[2].items()), f"{c['f']} changed the parameter dictionary", now=repr(args[2]), case=c)
            leaves = cx.jax.tree_util.tree_leaves(raw)
            for q in leaves:
                if isinstance(q, np.ndarray):
                    cx.true(not any(np.shares_memory(q, a) for a in arrays), f"{c['f']} returned the caller's own memory", case=c)
            out.append([np.array(q) for q in leaves])
        for a, b in zip(*out):
            cx.true(a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes(), f"{c['f']} called twice with the same objects: {a.tolist()}, then {b.tolist()}", case=c)
        return True

    return gen.uniforms(2).map(dec), check


def names(f):
    return list(inspect.signature(f).parameters)
