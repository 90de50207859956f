"""C10: every public function is transparent to jit, vmap and differentiation."""
import numpy as np
from hypothesis import strategies as st
from core import leg, Violation
import api
import gen
import odes
import refs
from refs import L
from props import c16

SLOW = c16.SLOW_EAGER


def dec_values(fns):
    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        fn = fns[int(t[0] * len(fns))]
        n = 3
        rows = [fn.random(rng) for _ in range(n)]
        if fn.specials and rng.random() < 0.4:
            rows[int(rng.integers(n))] = list(fn.specials[int(rng.integers(len(fn.specials)))])
        axes = [0 if rng.random() < 0.7 else None for _ in fn.args]
        if not any(a == 0 for a, g in zip(axes, fn.args) if g.kind != "P"):
            axes[0] = 0
        axes = [None if g.kind == "P" else a for a, g in zip(axes, fn.args)]
        rows = [[r[k] if axes[k] == 0 else rows[0][k] for k in range(len(r))] for r in rows]
        return dict(fn=fn.name, rows=rows, axes=axes)

    return gen.uniforms(2).map(dec)


_cache = {}


def compiled(cx, kind, name, axes):
    key = (kind, name, tuple(axes))
    if key not in _cache:
        f = cx.get(name)
        if kind == "vmap":
            _cache[key] = cx.jax.vmap(f, in_axes=tuple(axes))
        else:
            _cache[key] = cx.jax.jit(cx.jax.vmap(f, in_axes=tuple(axes)))
    return _cache[key]


def check_values(cx, c, eager=True, plain_vmap=True):
    fn = api.BY_NAME[c["fn"]]
    jnp = cx.jnp
    n = len(c["rows"])
    val = lambda a, v: v if a.kind == "P" else jnp.asarray(cx.a(v))
    rows = [[val(a, v) for a, v in zip(fn.args, r)] for r in c["rows"]]
    ok = [fn.ok(r) for r in c["rows"]]
    one = [cx.call(cx.jit(fn.name), *r, what=f"jit({fn.name})") for r in rows]
    info = dict(case=c)
    batched = [rows[0][k] if ax is None else jnp.stack([r[k] for r in rows]) for k, ax in enumerate(c["axes"])]
    many = [("jit(vmap)", cx.call(compiled(cx, "jitvmap", fn.name, c["axes"]), *batched, what=f"jit(vmap({fn.name}))"))]
    if plain_vmap:
        many.append(("vmap", cx.call(compiled(cx, "vmap", fn.name, c["axes"]), *batched, what=f"vmap({fn.name})")))
    if eager:
        for r, w, k in zip(rows, one, ok):
            got = cx.call(cx.get(fn.name), *r, what=fn.name)
            for a, b in zip(api.outputs(fn, got), api.outputs(fn, w)):
                cx.true(a.dtype == b.dtype and a.shape == b.shape, f"{fn.name}: compiled result has shape {b.shape} and dtype {b.dtype}, direct result {a.shape} {a.dtype}", **info)
            if k:
                api.same(cx, fn, got, w, f"{fn.name}: direct call against compiled call", element=[np.asarray(x).tolist() for x in r], **info)
    for label, got in many:
        outs = api.outputs(fn, got)
        for i in range(n):
            el = [o[i] for o in outs]
            if ok[i]:
                api.same(cx, fn, el if fn.multi else el[0], one[i], f"{label} of {fn.name}, element {i}, against a single compiled call", **info)
    return sum(ok) >= 2


FASTV = [f for f in api.FUNCTIONS if f.name not in SLOW]
SLOWV = [f for f in api.FUNCTIONS if f.name in SLOW]


@leg("C10", "values")
def values(cx):
    # vmap without jit re-traces; combine it with direct calls
    return dec_values(FASTV), check_values


@leg("C10", "solvers")
def solvers(cx):
    return dec_values(SLOWV), lambda cx, c: check_values(cx, c, eager=False, plain_vmap=False)


@leg("C10", "eager")
def eager(cx):
    return dec_values(SLOWV), check_values


# ---- derivatives ------------------------------------------------------------------------------
DIFF = [f for f in api.FUNCTIONS if f.diff and f.name not in SLOW]
ZERO_OK = {"E", "M", "e", "H", "N", "chi", "alpha", "sigma0", "deltat", "sigma", "U0", "U1", "U2", "U4", "U5", "f", "incl", "raan", "argp", "true_anom", "angle", "F", "G", "C", "Ft", "Gt"}
# six-point central difference
OFF = np.array([-3, -2, -1, 1, 2, 3])
WT = np.array([-1, 9, -45, 45, -9, 1]) / 60.0
H = 2e-3


def jacs(cx, name, nums):
    key = ("jac", name)
    if key not in _cache:
        f = cx.get(name)
        jax = cx.jax
        _cache[key] = (jax.jit(jax.jacfwd(f, argnums=nums)), jax.jit(jax.jacrev(f, argnums=nums)), jax.jit(jax.vmap(f)))
    return _cache[key]


@leg("C10", "derivs")
def derivs(cx):
    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        fn = DIFF[int(t[0] * len(DIFF))]
        v = fn.random(rng)
        if rng.random() < 0.2:  # states in a coordinate plane, or all along one axis
            m = c16.pick(rng, [(1, 1, 0), (0, 1, 1), (1, 0, 1), (0, 1, 0)])
            v = [[float(x * k) for x, k in zip(w, m)] if isinstance(w, list) else w for w in v]
        if fn.name == "twobody.dxdx0" and rng.random() < 0.3:
            v = list(fn.specials[int(rng.integers(2))])
        elif rng.random() < 0.4:
            k = int(rng.integers(len(v)))
            lo_e = fn.args[k].name == "e" and fn.name in ("kepler_equ_hypb", "dH")
            if fn.args[k].name in ZERO_OK and not lo_e:
                v[k] = 0.0
        return dict(fn=fn.name, v=v)

    def check(cx, c):
        fn = api.BY_NAME[c["fn"]]
        # finite differences need a neighbourhood inside the domain
        if not fn.ok(c["v"]):
            return False
        nums = tuple(k for k, a in enumerate(fn.args) if a.kind != "P")
        x = [cx.a(v) for v in c["v"]]
        fwd, rev, many = jacs(cx, fn.name, nums)
        jf = cx.call(fwd, *x, what=f"jacfwd({fn.name})")
        jr = cx.call(rev, *x, what=f"jacrev({fn.name})")
        jf = jf if fn.multi else (jf,)
        jr = jr if fn.multi else (jr,)
        flat = np.concatenate([np.ravel(a) for a in x]).astype(float)
        sizes = [int(np.size(a)) for a in x]
        starts = np.concatenate([[0], np.cumsum(sizes)])
        fd = None
        if cx.x64:
            P = np.repeat(flat[None], len(flat) * len(OFF), axis=0)
            for i in range(len(flat)):
                for j, o in enumerate(OFF):
                    P[i * len(OFF) + j, i] += o * H
            # all stencil points must be in the well-conditioned domain
            for p in P:
                if not fn.ok([p[starts[k] : starts[k] + s].reshape(np.shape(x[k])) for k, s in enumerate(sizes)]):
                    return False
            cols = [P[:, starts[k] : starts[k] + s].reshape((len(P),) + np.shape(x[k])) for k, s in enumerate(sizes)]
            y = cx.call(many, *cols, what=f"vmap({fn.name})")
            y = y if fn.multi else (y,)
            fd = []
            for o, kind in zip(y, fn.out):
                o = o.astype(float).reshape((len(flat), len(OFF)) + o.shape[1:])
                if kind.startswith("ang"):
                    o = o[:, :1] + refs.wrap(o - o[:, :1]).astype(float)
                d = np.tensordot(WT, o, axes=(0, 1)) / H  # (nin, out...)
                fd.append((np.moveaxis(d, 0, -1), float(np.abs(o).max())))
        base = cx.call(cx.jit(fn.name), *x, what=fn.name)
        base = base if fn.multi else (base,)
        for q in range(len(jf)):
            oshape = base[q].shape
            F = np.concatenate([np.asarray(jf[q][k]).reshape(oshape + (s,)) for k, s in zip(range(len(nums)), sizes)], axis=-1).astype(float)
            R = np.concatenate([np.asarray(jr[q][k]).reshape(oshape + (s,)) for k, s in zip(range(len(nums)), sizes)], axis=-1).astype(float)
            for lab, J in (("forward", F), ("reverse", R)):
                cx.true(np.isfinite(J).all(), f"{lab}-mode derivative of {fn.name} is not finite: {J.tolist()}", case=c)
            s = 1 + np.abs(F).max() + np.abs(base[q]).max()
            cx.close(R, F, (1e-10 if cx.x64 else 3e-4) * s, f"reverse- and forward-mode derivatives of {fn.name} (result {q})", case=c)
            if fd:
                d, m = fd[q]
                cx.close(F, d, 2e-6 * (s + m), f"derivative of {fn.name} (result {q}) against differences of its values", case=c)
        return True

    return gen.uniforms(2).map(dec), check


# ---- implicit derivatives of the solvers --------------------------------------------------------
@leg("C10", "roots")
def roots(cx):
    """d(root)/d(parameters) of the Kepler solvers against the implicit-function theorem."""
    def dec(u):
        kind = int(3 * u[0])
        sg = 1 if u[6] > 0.5 else -1
        if kind == 0:
            return dict(k="elps", a=[float((20 * u[1] - 10) if u[5] > 0.15 else 0.0), float(0.97 * u[2] if u[5] > 0.05 and u[7] > 0.1 else 0.0)])
        if kind == 1:
            return dict(k="hypb", a=[float(sg * 10 ** (3 * u[1] - 1.5) if u[5] > 0.1 else 0.0), 1.03 + 4 * u[2]])
        r0 = 0.5 + 1.5 * u[1]
        al = 0.0 if u[5] < 0.15 else (2 * u[2] - 1) * (1e-4 if u[5] < 0.25 else 1)
        smax = np.sqrt(2 * r0 - al * r0**2)
        return dict(k="uni", a=[float(8 * (2 * u[3] - 1) if u[7] > 0.1 else 0.0), float(al), float(r0), float(0.95 * smax * (2 * u[4] - 1)), float(0.3 + 2.7 * u[6])])

    J = {}
    for k in ("elps", "hypb", "uni"):
        f = cx.get("solve_kepler_" + k)
        nums = (0, 1) if k != "uni" else (0, 1, 2, 3, 4)
        J[k] = (cx.jax.jit(cx.jax.jacfwd(f, argnums=nums)), cx.jax.jit(cx.jax.jacrev(f, argnums=nums)), cx.jax.jit(cx.jax.vmap(cx.jax.grad(f, argnums=nums))))

    def check(cx, c):
        x = [cx.a(v) for v in c["a"]]
        fwd, rev, vm = J[c["k"]]
        name = "solve_kepler_" + c["k"]
        root = L(float(cx.call(cx.jit(name), *x, what=name)))
        # the derivative is that of the exact root; polish the returned one in long double
        X = [L(v) for v in x]
        if c["k"] == "elps":
            M, e = X
            for _ in range(8):
                root = root - (root - e * np.sin(root) - M) / (1 - e * np.cos(root))
            d = 1 - e * np.cos(root)
            want = np.array([1 / d, np.sin(root) / d])
            # sensitivity of that to an error in the root
            sens = np.array([np.abs(e * np.sin(root)) / d**2, 1 / d + e / d**2])
            tol_x = 1e-6 * 1 + 8 * cx.eps * (1 + abs(M)) / d
        elif c["k"] == "hypb":
            N, e = X
            for _ in range(8):
                root = root - (e * np.sinh(root) - root - N) / (e * np.cosh(root) - 1)
            d = e * np.cosh(root) - 1
            want = np.array([1 / d, -np.sinh(root) / d])
            sens = np.array([np.abs(e * np.sinh(root)) / d**2, np.cosh(root) / d + e * np.sinh(root) ** 2 / d**2])
            tol_x = 1e-6 + 8 * cx.eps * (1 + abs(N)) / d
        else:
            t, al, r0, s0, mu = X
            sm = np.sqrt(mu)
            root = refs.solve_uni(sm * t, al, r0, s0)
            U = refs.ufuncs(root, al)
            r = r0 * U[0] + s0 * U[1] + U[2]
            # d/d alpha by complex step
            z = np.array([al + 1j * L(1e-30)], dtype=np.clongdouble)
            cs = refs._stumpff_c(z * root * root)
            Uc = [cs[n] * root**n for n in range(6)]
            fa = ((r0 * Uc[1] + s0 * Uc[2] + Uc[3]).imag / L(1e-30))[0]
            want = np.array([sm / r, -fa / r, -U[1] / r, -U[2] / r, t / (2 * sm) / r])
            sig = s0 * U[0] + (1 - al * r0) * U[1]
            sens = np.abs(want) * np.abs(sig) / r + np.array([0, np.abs(root) * (1 + np.abs(root)) * (1 + abs(sig)), np.abs(U[0]), np.abs(U[1]), 0]) / r
            tol_x = 1e-6 + 64 * cx.eps * (1 + abs(root)) / min(r, 1)
        tol = 4 * (2 * tol_x * sens + (1e-7 if cx.x64 else 1e-3) * (np.abs(want) + (1e-6 if cx.x64 else 1e-3) * np.abs(want).max()))
        info = dict(case=c)
        gf = np.array([float(v) for v in cx.call(fwd, *x, what=f"jacfwd({name})")])
        gr = np.array([float(v) for v in cx.call(rev, *x, what=f"jacrev({name})")])
        gv = np.array([float(v[1]) for v in cx.call(vm, *[np.stack([v, v]) for v in x], what=f"vmap(grad({name}))")])
        for lab, g in (("forward", gf), ("reverse", gr), ("batched reverse", gv)):
            cx.close(g, want, tol, f"{lab}-mode derivative of {name} against the derivative of the root", **info)
        return True

    return gen.uniforms(8).map(dec), check


@leg("C10", "kepler")
def kepler(cx):
    """Jacobian of the propagator with respect to time, state and mu, for every conic."""
    strat = st.fixed_dictionaries(
        dict(
            orb=gen.uniforms(9).map(
                lambda u: dict(q=0.5 + 1.5 * u[0], e=(0.0 if u[1] < 0.08 else 1.0 if u[1] > 0.92 else gen.decode_ecc(min(u[1], 0.85), u[2])), u=2 * u[3] - 1,
                               o=[6.3 * u[4], 3.1416 * u[5], 6.3 * u[6]], mu=(1.0 if u[7] < 0.3 else 0.3 + 3 * u[7]))
            ),
            t=gen.uniforms(2).map(lambda u: 0.0 if u[1] < 0.15 else 16 * u[0] - 8),
            # exactly parabolic in floating point: r = 2, v = 1, mu = 1, in several directions
            par=gen.uniforms(2).map(lambda u: int(6 * u[1]) + 1 if u[0] < 0.1 else 0),
        )
    )
    PAR = [([2, 0, 0], [0, 1, 0]), ([2, 0, 0], [0, 0, -1]), ([0, 2, 0], [0.5, 0.5, 0.5**0.5]), ([0, 0, -2], [0.6, 0.8, 0]), ([0, 0.5, 0], [2, 0, 0]), ([8, 0, 0], [0.25, 0.25, 0.125**0.5])]
    jax = cx.jax
    f = cx.get("prop.kepler")

    def flat(t, r, v, mu):
        a, b = f(cx.jnp.reshape(t, (1,)), r, v, mu)
        return cx.jnp.concatenate([a[0], b[0]])

    fwd = jax.jit(jax.jacfwd(flat, argnums=(1, 2, 0, 3)))
    rev = jax.jit(jax.jacrev(flat, argnums=(1, 2, 0, 3)))
    both = jax.jit(jax.vmap(jax.jacrev(flat, argnums=(1, 2, 0, 3)), in_axes=(0, None, None, None)))

    def alone(t, r, v, mu):
        # the time as a number, not as a vector of one
        a, b = f(t, r, v, mu)
        return cx.jnp.concatenate([cx.jnp.ravel(a), cx.jnp.ravel(b)])

    num = {k: jax.jit(g(alone, argnums=(1, 2, 0, 3))) for k, g in (("forward", jax.jacfwd), ("reverse", jax.jacrev))}

    def check(cx, c):
        r, v, mu = gen.state(cx, c["orb"])
        if c["par"]:
            r, v = (cx.a(k) for k in PAR[c["par"] - 1])
            mu = cx.dt(1)
        t = cx.dt(c["t"])
        a = refs.Arc(t, r, v, mu)
        want = refs.kepler_jac(t, r, v, mu)
        x = np.sqrt(abs(a.alpha)) * abs(a.chi)
        # growth of rounding and of the solver's 1e-6 along the arc
        blocks = [slice(0, 3), slice(3, 6)]
        big = np.abs(want).max()
        if big > (1e6 if cx.x64 else 3e2) or x > 30 or min(a.R, a.r0) < 0.05 or refs.norm(v) * a.r0 > 1e3:
            return False
        rel = (1e-5 if cx.x64 else 3e-2) * (1 + (big / 1e3 if cx.x64 else big / 30))
        def cat(J):
            return np.concatenate([np.asarray(J[0]), np.asarray(J[1]), np.asarray(J[2])[..., None], np.asarray(J[3])[..., None]], axis=-1)
        info = dict(t=float(t), r=r.tolist(), v=v.tolist(), mu=float(mu))
        gs = dict(forward=cat(cx.call(fwd, t, r, v, mu, what="jacfwd(kepler)")), reverse=cat(cx.call(rev, t, r, v, mu, what="jacrev(kepler)")))
        for k in num:
            gs[f"scalar time, {k}"] = cat(cx.call(num[k], t, r, v, mu, what=f"jac({k}) of kepler at a scalar time"))
        gs["batched reverse"] = cat([k[1] for k in cx.call(both, np.stack([t * cx.dt(0.5), t]), r, v, mu, what="vmap(jacrev(kepler))")])
        # the solver may leave a residual of 1e-6 (in sqrt(mu) t): its effect on each derivative,
        # by the natural scales of the state per chi and of each parameter
        dchi = 1e-6 / a.R + 32 * cx.eps * (abs(a.chi) + 1)
        vs = np.sqrt(2 * a.mu / min(a.r0, a.R)) + refs.norm(a.v)
        per_chi = {0: a.R / a.sm * vs, 3: a.sm / a.R}
        per_par = {0: a.r0, 3: np.sqrt(a.mu / a.r0), 6: a.R * a.r0 / a.sm / vs, 7: a.mu}
        for lab, g in gs.items():
            for b in blocks:
                for cols, nm in ((slice(0, 3), "initial position"), (slice(3, 6), "initial velocity"), (slice(6, 7), "time"), (slice(7, 8), "mu")):
                    w = want[b, cols]
                    floor = np.abs(want[b]).max() * 1e-2
                    slack = 8 * dchi * (1 + x) ** 2 * per_chi[b.start] / per_par[cols.start]
                    cx.close(g[b, cols], w, rel * (np.abs(w).max() + floor) + slack, f"{lab}-mode derivative of kepler's {'position' if b.start == 0 else 'velocity'} by {nm}", **info)
        return True

    return strat, check


# ---- forces, events, propagators -------------------------------------------------------------------
@leg("C10", "forces")
def forces(cx):
    names = sorted(c16.GRAV)

    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        n = names[int(t[0] * len(names))]
        rows = []
        for _ in range(3):
            x = api.vec(rng.random(4))
            if rng.random() < 0.4:  # poles, axes, coordinate planes
                x = [v * m for v, m in zip(x, c16.pick(rng, [(0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 1, 1), (1, 0, 1)]))]
                x = [v * 0.8 / float(np.linalg.norm(x)) for v in x]
            x = x + [float(v) for v in rng.uniform(-1, 1, 3)]
            p = {k: {"mu": 0.3 + 3 * rng.random(), "R_eq": 0.5 + rng.random(), "rmin": 2 * rng.random()}.get(k, rng.uniform(-1, 1)) for k in c16.GRAV[n]}
            rows.append([x, {k: float(v) for k, v in p.items()}])
        return dict(fn=n, rows=rows, shared=bool(rng.random() < 0.5))

    def check(cx, c):
        jax, jnp = cx.jax, cx.jnp
        f = cx.get(c["fn"])
        rows = c["rows"]
        ps = [rows[0][1] if c["shared"] else r[1] for r in rows]
        xs = [cx.a(r[0]) for r in rows]
        pj = [{k: cx.a(v) for k, v in p.items()} for p in ps]
        one = [cx.call(f, 0.0, jnp.asarray(x), {k: float(v) for k, v in p.items()}, what=c["fn"]) for x, p in zip(xs, pj)]
        tol = api.tolerance(cx)
        for x, p, w in zip(xs, pj, one):
            cx.close(cx.call(cx.jit(c["fn"]), cx.dt(0), x, p, what=f"jit({c['fn']})"), w, tol * (1 + np.abs(w).max()), f"{c['fn']}: compiled against direct call", case=c)
        key = ("force", c["fn"], c["shared"])
        if key not in _cache:
            _cache[key] = (jax.vmap(f, in_axes=(None, 0, None if c["shared"] else 0)), jax.jit(jax.vmap(f, in_axes=(None, 0, None if c["shared"] else 0))),
                           jax.jit(jax.jacfwd(f, argnums=(1, 2))), jax.jit(jax.jacrev(f, argnums=(1, 2))), jax.jit(jax.vmap(f, in_axes=(None, 0, 0))))
        vm, jvm, fwd, rev, many = _cache[key]
        P = pj[0] if c["shared"] else {k: np.stack([p[k] for p in pj]) for k in pj[0]}
        for lab, g in (("vmap", vm), ("jit(vmap)", jvm)):
            got = cx.call(g, cx.dt(0), np.stack(xs), P, what=f"{lab}({c['fn']})")
            for i, w in enumerate(one):
                cx.close(got[i], w, tol * (1 + np.abs(w).max()), f"{lab} of {c['fn']}, element {i}, against the direct call", case=c)
        # derivatives
        x, p = xs[0], pj[0]
        a, b = cx.call(fwd, cx.dt(0), x, p, what=f"jacfwd({c['fn']})"), cx.call(rev, cx.dt(0), x, p, what=f"jacrev({c['fn']})")
        keys = sorted(p)
        cat = lambda J: np.concatenate([np.atleast_2d(J[0])] + [np.reshape(J[1][k], (-1, 1)) for k in keys], axis=-1).astype(float)
        A, B = cat(a), cat(b)
        s = 1 + np.abs(A).max() + np.abs(one[0]).max()
        cx.true(np.isfinite(A).all() and np.isfinite(B).all(), f"derivatives of {c['fn']} are not finite", case=c)
        cx.close(B, A, (1e-11 if cx.x64 else 1e-4) * s, f"reverse- and forward-mode derivatives of {c['fn']}", case=c)
        if cx.x64:
            z = np.concatenate([x, [p[k] for k in keys]])
            m = len(z)
            Z = np.repeat(z[None], m * 6, axis=0)
            for i in range(m):
                for j, o in enumerate(OFF):
                    Z[6 * i + j, i] += o * H
            y = cx.call(many, cx.dt(0), Z[:, :6], {k: Z[:, 6 + i] for i, k in enumerate(keys)}, what=c["fn"]).astype(float).reshape(m, 6, -1)
            d = np.tensordot(WT, y, axes=(0, 1)) / H
            r = float(np.linalg.norm(x[:3]))
            cx.close(A, d.T, 1e-6 * (s + np.abs(y).max()) / min(r, 1) ** 7, f"derivative of {c['fn']} against differences of its values", case=c)
        return True

    return gen.uniforms(2).map(dec), check


@leg("C10", "propagators")
def propagators(cx):
    """Numerical propagators compiled, batched, and compiled-batched against direct calls."""
    jax, jnp, P = cx.jax, cx.jnp, cx.adx.prop
    vf = c16.plain_field(cx)
    diffeq = cx.adx.diffeq
    ev = cx.adx.events.radius_islow

    def run(entry, event):
        def f(x0, t1, mu, rmin):
            o = P.OrbDynx(terms=diffeq.ODETerm(vf), args=dict(mu=mu, rmin=rmin), event=diffeq.Event(ev) if event else None)
            if entry == "to_final":
                s = P.to_final(o, x0, t1)
            elif entry == "adaptive_steps":
                s = P.adaptive_steps(o, x0, t1, max_steps=256)
            elif entry == "fixed_steps":
                s = P.fixed_steps(o, x0, t1, 0.125, max_steps=64)
            elif entry == "custom_steps":
                s = P.custom_steps(o, x0, t1, t1 * jnp.array([0.25, 0.5, 1.0]))
            else:
                s = P.cowell_method(o, x0, t1, diffeq.SaveAt(t1=True))
            return s.ts, s.ys
        return f

    FS = {}
    for e in c16.ENTRY:
        for event in (False, True):
            f = run(e, event)
            FS[e, event] = (f, jax.jit(f), jax.vmap(f), jax.jit(jax.vmap(f)))

    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        rows = []
        for _ in range(3):
            r = api.vec(rng.random(4))
            r = (np.array(r) / np.linalg.norm(r) * (0.9 + 0.3 * rng.random()))
            w = np.cross(r, rng.normal(size=3))
            v = w / np.linalg.norm(w) * (0.75 + 0.4 * rng.random()) + 0.1 * r
            rows.append([[float(k) for k in list(r) + list(v)], float(0.5 + 4 * rng.random()), float(0.9 + 0.3 * rng.random())])
        return dict(entry=c16.ENTRY[int(t[0] * 5)], rows=rows, event=bool(rng.random() < 0.4), rmin=float(0.6 + 0.3 * rng.random()), v=bool(rng.random() < 0.3))

    def check(cx, c):
        f, jf, vm, jvm = FS[c["entry"], c["event"]]
        rows = [(cx.a(r[0]), cx.a(r[1]), cx.a(r[2]), cx.a(c["rmin"])) for r in c["rows"]]
        one = [cx.call(jf, *r, what=f"jit({c['entry']})") for r in rows]
        got = [("direct call", 0, cx.call(f, *(jnp.asarray(k) for k in rows[0]), what=c["entry"]))]
        cols = [np.stack([r[k] for r in rows]) for k in range(4)]
        m = cx.call(jvm, *cols, what=f"jit(vmap({c['entry']}))")
        got += [("jit(vmap)", i, (m[0][i], m[1][i])) for i in range(3)]
        if c["v"]:
            m = cx.call(vm, *cols, what=f"vmap({c['entry']})")
            got += [("vmap", i, (m[0][i], m[1][i])) for i in range(3)]
        for lab, i, (ts, ys) in got:
            wt, wy = one[i]
            k, kw = np.isfinite(ts), np.isfinite(wt)
            cx.true(k.sum() == kw.sum(), f"{lab} of {c['entry']} (element {i}) reports {k.sum()} states, a single compiled call {kw.sum()}", case=c)
            cx.close(ts[k], wt[kw], 1e-6 if cx.x64 else 3e-3, f"{lab} of {c['entry']} (element {i}): times against a single compiled call", case=c)
            cx.close(ys[k], wy[kw], 1e-5 if cx.x64 else 3e-2, f"{lab} of {c['entry']} (element {i}): states against a single compiled call", case=c)
        return True

    return gen.uniforms(2).map(dec), check


@leg("C10", "sensitivity", modes=("x64",))
def sensitivity(cx):
    """Reverse-mode derivatives of the final state of a numerical propagation, by initial state, final time and parameters."""
    jax, jnp, P, g, d = cx.jax, cx.jnp, cx.adx.prop, cx.adx.gravity, cx.adx.diffeq

    def vf(t, x, args):
        return jnp.concatenate([x[3:], g.point_mass_grav(t, x, args) + g.j2_acc(t, x, args)])

    def run(entry):
        def f(z):
            x0, t1, mu, J2, R = z[:6], z[6], z[7], z[8], z[9]
            args = dict(mu=mu, J2=J2, R_eq=R, rmin=1e-3)
            # an event that never occurs changes nothing
            o = P.OrbDynx(terms=d.ODETerm(vf), args=args, event=d.Event(cx.adx.events.radius_islow) if entry == "cowell_method" else None)
            if entry == "to_final":
                return P.to_final(o, x0, t1).ys[-1]
            if entry == "cowell_method":
                return P.cowell_method(o, x0, t1, d.SaveAt(t1=True)).ys[-1]
            s = P.adaptive_steps(o, x0, t1, max_steps=300) if entry == "adaptive_steps" else P.fixed_steps(o, x0, t1, 0.03125, max_steps=200)
            return s.ys[s.stats["num_accepted_steps"]]

        return f

    ENTRY = ["to_final", "cowell_method", "adaptive_steps", "fixed_steps"]
    FS = {}

    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        r = np.array(api.vec(rng.random(4)))
        r = r / np.linalg.norm(r) * (0.9 + 0.3 * rng.random())
        w = np.cross(r, rng.normal(size=3))
        v = w / np.linalg.norm(w) * (0.8 + 0.4 * rng.random()) + 0.2 * rng.random() * r
        J2 = float(0.0 if rng.random() < 0.5 else rng.uniform(-0.02, 0.02))
        return dict(entry=ENTRY[int(t[0] * 4)], z=[float(k) for k in list(r) + list(v) + [0.5 + 3 * rng.random(), 0.9 + 0.3 * rng.random(), J2, 0.7 + 0.6 * rng.random()]])

    def check(cx, c):
        e = c["entry"]
        if e not in FS:
            f = run(e)
            FS[e] = jax.jit(jax.jacrev(f)), jax.jit(jax.vmap(f))
        rev, many = FS[e]
        z = cx.a(c["z"])
        # regular arcs only: away from the centre and of moderate growth
        want = refs.kepler_jac(z[6], z[:3], z[3:6], z[7])
        ts = np.linspace(0, z[6], 24)
        if min(refs.norm(refs.Arc(t, z[:3], z[3:6], z[7]).r) for t in ts) < 0.3 or np.abs(want).max() > 300:
            return False
        J = cx.call(rev, z, what=f"jacrev({e})")
        cx.true(np.isfinite(J).all(), f"the derivative of {e} is not finite: {J.tolist()}", case=c)
        Z = np.repeat(z[None], 60, axis=0)
        for i in range(10):
            for j, o in enumerate(OFF):
                Z[6 * i + j, i] += o * H
        y = cx.call(many, Z, what=e).reshape(10, 6, 6)
        fd = np.tensordot(WT, y, axes=(0, 1)).T / H
        s = 1 + np.abs(want).max()
        cx.close(J, fd, 1e-4 * s, f"reverse-mode derivative of {e} (initial state, time, mu, J2, R_eq) against differences of its values", case=c)
        if z[8] == 0:
            cx.close(J[:, :8], want, 1e-5 * s, f"reverse-mode derivative of {e} (initial state, time, mu) against the two-body sensitivity", case=c)
        return True

    return gen.uniforms(2).map(dec), check


@leg("C10", "second", modes=("x64",))
def second(cx):
    """Second derivatives through the solvers and the propagator against differences of first ones."""
    jax, jnp = cx.jax, cx.jnp
    k = cx.get("prop.kepler")

    def along(z):
        r, v = k(z[:1], z[1:4], z[4:7], z[7])
        return r[0] @ z[8:11] + v[0] @ z[11:14]

    F = {f"solve_kepler_{n}": (lambda z, f=cx.get(f"solve_kepler_{n}"): f(*z)) for n in ("elps", "hypb", "uni")}
    F["prop.kepler"] = along
    J = {n: (jax.jit(jax.jacfwd(jax.grad(f))), jax.jit(jax.vmap(jax.grad(f)))) for n, f in F.items()}
    H = 2e-3

    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        n = ["solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni", "prop.kepler", "prop.kepler"][int(5 * t[0])]
        v = api.BY_NAME[n].random(rng)
        z = [float(q) for w in v[: {"solve_kepler_uni": 5, "prop.kepler": 4}.get(n, 2)] for q in (w if isinstance(w, list) else [w])]
        if n == "prop.kepler":
            z[0] /= 3
            z += [float(q) for q in rng.uniform(-1, 1, 6)]
        return dict(f=n, z=z)

    def check(cx, c):
        z = cx.a(c["z"])
        hess, grads = J[c["f"]]
        m = {"solve_kepler_uni": 5, "prop.kepler": 8}.get(c["f"], 2)
        if c["f"] == "solve_kepler_elps" and not 3 * H < z[1] < 0.8:
            return False
        if c["f"] == "prop.kepler":
            a = refs.Arc(z[0], z[1:4], z[4:7], z[7])
            if min(a.r0, a.R, refs.norm(refs.Arc(z[0] / 2, z[1:4], z[4:7], z[7]).r)) < 0.4 or np.abs(refs.kepler_jac(z[0], z[1:4], z[4:7], z[7])).max() > 60:
                return False
        W = []
        for h in (H, H / 4):
            Z = np.repeat(z[None], 6 * m, axis=0)
            for i in range(m):
                for j, o in enumerate(OFF):
                    Z[6 * i + j, i] += o * h
            g = cx.call(grads, Z, what=f"vmap(grad({c['f']}))").reshape(m, 6, -1)
            W.append(np.tensordot(WT, g, axes=(0, 1)) / h)
        A = cx.call(hess, z, what=f"hessian({c['f']})")[:m]
        cx.true(np.isfinite(A).all(), f"second derivatives of {c['f']} are not finite", case=c)
        s = 1 + np.abs(W[1]).max() + np.abs(g).max()
        if np.abs(W[0] - W[1]).max() > 1e-5 * s:  # the differences themselves have not converged
            return False
        cx.close(A, W[1], 1e-3 * s, f"second derivative of {c['f']} against differences of its first", case=c)
        return True

    return gen.uniforms(2).map(dec), check
