"""C16: results do not depend on how a number is represented, on keyword use or on omitted defaults."""
import numpy as np
from hypothesis import strategies as st
from core import leg, Violation
import api
import gen
import odes
import refs

SCALAR = ["py", "npf", "np0", "jnp", "weak"]
SCALAR_INT = ["int", "npi", "np0i", "jnpi"]
ARRAY = ["npf", "jnp", "npd"]
ARRAY_INT = ["npi", "jnpi", "npi32"]


def represent(cx, x, rep):
    """The number or nested list x (exactly representable in the session dtype) in a representation."""
    jnp = cx.jnp
    if rep == "py":
        return float(x)
    if rep == "int":
        return int(x)
    if rep == "weak":
        return jnp.asarray(float(x))
    if rep == "npf":
        return np.float64(x) if np.ndim(x) == 0 else np.asarray(x, dtype=np.float64)
    if rep == "npd":
        return np.asarray(x, dtype=cx.dt)
    if rep == "np0":
        return np.asarray(x, dtype=np.float64)
    if rep == "jnp":
        return jnp.asarray(cx.a(x))
    i = np.asarray(x).astype(np.int64)
    if rep == "npi":
        return np.int64(x) if np.ndim(x) == 0 else i
    if rep == "np0i":
        return i
    if rep == "npi32":  # the session's integer width is 32 bits only in 32-bit mode
        return i.astype(np.int64 if cx.x64 else np.int32)[()]
    if rep == "jnpi":
        return jnp.asarray(i)
    raise AssertionError(rep)


def check_dtype(cx, raw, kind, ints, jaxed, what, /, **info):
    """Session precision: float64 in 64-bit mode, float32 otherwise (plain NumPy/Python results may be wider)."""
    is_jax = isinstance(raw, cx.jax.Array)
    dt = np.asarray(raw).dtype
    if kind == "bool":
        cx.true(dt == np.bool_, f"{what}: result dtype {dt}", **info)
    elif dt.kind in "iu":
        cx.true(ints, f"{what}: integer result from non-integer arguments", **info)
    elif is_jax or cx.x64:
        cx.true(dt == cx.dt, f"{what}: result dtype {dt}, session precision {np.dtype(cx.dt)}", **info)
    else:
        cx.true(dt in (np.dtype(np.float32), np.dtype(np.float64)), f"{what}: result dtype {dt}", **info)


def pick(rng, items):
    return items[int(rng.integers(len(items)))]


SLOW_EAGER = {"prop.kepler", "solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni"}
FAST = [f for f in api.FUNCTIONS if f.name not in SLOW_EAGER]
SLOW = [f for f in api.FUNCTIONS if f.name in SLOW_EAGER]


def dec_forms(fns, x64):
    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        fn = fns[int(t[0] * len(fns))]
        ints = rng.random() < 0.4
        batch = fn.broadcast and rng.random() < 0.3
        n = 3 if batch else 1
        rows = [fn.random(rng, integers=ints and rng.random() < 0.7) for _ in range(n)]
        args = []
        d = np.float64 if x64 else np.float32
        for k, a in enumerate(fn.args):
            col = [r[k] for r in rows]
            full = batch and a.kind != "A" and (a.kind == "V" or rng.random() < 0.8)
            v = col if full else col[0]
            v = np.asarray(v, dtype=d).astype(float).tolist()
            arr = np.asarray(v)
            isint = bool((arr == np.round(arr)).all())
            if a.kind == "P":
                rep = "raw"
            elif arr.ndim == 0:
                rep = pick(rng, SCALAR + (SCALAR_INT * 2 if isint else []))
            else:
                rep = pick(rng, ARRAY + (ARRAY_INT * 2 if isint else []))
            style = "pos"
            args.append([a.name, v, rep, style])
        # keyword tail, and omitted optional arguments
        kw = int(rng.integers(len(args) + 1)) if rng.random() < 0.5 else len(args)
        for k in range(kw, len(args)):
            args[k][3] = "kw"
        for k, a in enumerate(fn.args):
            if a.default is not None and rng.random() < (0.7 if a.kind == "P" else 0.35):
                # omitting a middle argument forces the rest to keywords
                args[k][3] = "omit"
                for j in range(k + 1, len(args)):
                    if args[j][3] == "pos":
                        args[j][3] = "kw"
        return dict(fn=fn.name, args=args)

    return gen.uniforms(2).map(dec)


def check_forms(cx, c, jit=False):
    fn = api.BY_NAME[c["fn"]]
    pos, kw, ref, single = [], {}, [], []
    ints, jaxed = True, False
    for a, (name, v, rep, style) in zip(fn.args, c["args"]):
        if style == "omit":
            v = a.default
        if a.kind == "P":
            ref.append(v)
        else:
            x = cx.a(v)
            if a.kind == "C" and x.ndim:
                x = x[:, None]
            ref.append(cx.jnp.asarray(x))
        single.append(v)
        if style != "omit":
            y = v if rep == "raw" else represent(cx, v, rep)
            if a.kind == "C" and np.ndim(v):
                y = y[:, None]
            jaxed |= isinstance(y, cx.jax.Array)
            if style == "pos":
                pos.append(y)
            else:
                kw[name] = y
        arr = np.asarray(v, dtype=float)
        ints &= bool((arr == np.round(arr)).all())
    # conditioning of every element
    n = max([len(v) for a, v in zip(fn.args, single) if a.kind in "SC" and np.ndim(v)] + [len(v) for a, v in zip(fn.args, single) if a.kind == "V" and np.ndim(v) == 2] + [1])
    for i in range(n):
        el = [(v[i] if (np.ndim(v) == 2 if a.kind == "V" else np.ndim(v) == 1) else v) for a, v in zip(fn.args, single)]
        if not fn.ok(el):
            return False
    info = dict(call=f"{fn.name}({', '.join(f'{nm}={v}:{rep}/{s}' for nm, v, rep, s in c['args'])})")
    want = cx.call(cx.jit(fn.name), *ref, what=fn.name + " (reference arrays)")
    f = cx.jit(fn.name) if jit else cx.get(fn.name)
    try:
        raw = f(*pos, **kw)
        got = cx.jax.tree_util.tree_map(np.asarray, raw)
    except Exception as e:
        raise Violation(f"{fn.name} raised {type(e).__name__}: {str(e)[:300]} for {info}")
    for r, kind in zip(raw if fn.multi else [raw], fn.out):
        check_dtype(cx, r, kind, ints, jaxed, fn.name, **info)
    # a column given as a scalar may change only the shape of results that keep it
    api.same(cx, fn, got, want, f"{fn.name} with other argument representations", **info)
    return True


@leg("C16", "forms")
def forms(cx):
    return dec_forms(FAST, cx.x64), check_forms


@leg("C16", "solvers")
def solvers(cx):
    def check(cx, c):
        return check_forms(cx, c, jit=True)

    return dec_forms(SLOW, cx.x64), check


@leg("C16", "eager")
def eager(cx):
    return dec_forms(SLOW, cx.x64), check_forms


@leg("C16", "defaults")
def defaults(cx):
    """Omitted optional arguments against their documented defaults, where small differences show."""
    fns = [f for f in FAST if any(a.default is not None for a in f.args)]

    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        nmax = t[0] < 0.25
        fn = api.BY_NAME["twobody.nmax_by_periapsis"] if nmax else fns[int((t[0] - 0.25) / 0.75 * len(fns))]
        v = fn.random(rng)
        opt = [k for k, a in enumerate(fn.args) if a.default is not None]
        out = [k for k in opt if rng.random() < 0.5] or [pick(rng, opt)]
        if nmax:
            out = [k for k in out if k != 4] or [3]
            rp, r1, r2, tof = [fn.args[k].default if k in out else v[k] for k in range(4)]
            # the gravitational parameter that makes the count all but whole
            n = int(rng.integers(1, 30)) * (1 + pick(rng, [1, 1, 1, -1]) * 10 ** rng.uniform(-5, -3.3))
            v[4] = float((n * 2 * np.pi / tof) ** 2 * ((max(r1, r2) + rp) / 2) ** 3)
        return dict(fn=fn.name, v=v, omit=[fn.args[k].name for k in out])

    def check(cx, c):
        fn = api.BY_NAME[c["fn"]]
        f, nmax = cx.get(c["fn"]), c["fn"].endswith("nmax_by_periapsis")
        full = {a.name: a.default if a.name in c["omit"] else v if a.kind == "P" else cx.a(v) for a, v in zip(fn.args, c["v"])}
        if not nmax and not fn.ok(list(full.values())):
            return False
        want = cx.call(f, **full, what=c["fn"])
        got = cx.call(f, **{k: v for k, v in full.items() if k not in c["omit"]}, what=c["fn"] + " with defaults")
        info = dict(call={k: np.asarray(v).tolist() for k, v in full.items()}, omitted=c["omit"])
        if nmax:
            cx.true(np.array_equal(got, want), f"{c['fn']} without {c['omit']} against the documented defaults", got=got.tolist(), want=want.tolist(), **info)
        else:
            api.same(cx, fn, got, want, f"{c['fn']} without {c['omit']} against the documented defaults", **info)
        return True

    return gen.uniforms(2).map(dec), check


# ---- integers in practical units -------------------------------------------------------------
def big_table():
    """Functions with integer arguments of the size of kilometres and seconds."""
    km = lambda r: int(r.integers(6400, 46000))
    sec = lambda r: int(r.integers(1000, 200000))
    mu = lambda r: 398600
    hm = lambda r: int(r.integers(45000, 140000))

    def orbit(r):
        """Integer state with moderate eccentricity (circular speed times 0.8 to 1.3, across the radius)."""
        R = km(r)
        while True:
            a = r.normal(size=3)
            a /= np.linalg.norm(a)
            b = np.cross(a, r.normal(size=3))
            b /= np.linalg.norm(b)
            pos = np.round(R * a)
            vel = np.round(np.sqrt(398600 / R) * (0.8 + 0.5 * r.random()) * (b + 0.2 * a))
            h = np.cross(pos, vel)
            hn = np.linalg.norm(h)
            e = np.linalg.norm(np.cross(vel, h) / 398600 - pos / np.linalg.norm(pos))
            if 0.1 < e < 0.8 and hn > 0.5 * R * np.linalg.norm(vel) and np.hypot(h[0], h[1]) > 0.2 * hn:
                return [int(x) for x in pos], [int(x) for x in vel]

    def rv(r):
        return list(orbit(r))

    return {
        "orb_period": lambda r: [km(r), mu(r)],
        "a_from_period": lambda r: [sec(r), mu(r)],
        "angular_momentum": rv,
        "semimajor_axis": lambda r: [int(r.integers(6400, 9000)), int(r.integers(5, 9)), mu(r)],
        "eccentricity_vector": lambda r: rv(r) + [mu(r)],
        "semiparameter": lambda r: [hm(r), mu(r)],
        "mean_motion": lambda r: [sec(r)],
        "equ_of_orbit": lambda r: [km(r), 0, int(r.integers(7))],
        "semipara_from_ae": lambda r: [-km(r), int(r.integers(2, 5))],
        "a_from_pe": lambda r: [km(r), int(r.integers(2, 5))],
        "mean_anomaly_elps": lambda r: [km(r), sec(r), mu(r)],
        "mean_anomaly_hypb": lambda r: [-km(r), sec(r), mu(r)],
        "rv2coe": lambda r: rv(r) + [mu(r)],
        "twobody.sigma_fn": lambda r: rv(r) + [mu(r)],
        "twobody.nmax_by_periapsis": lambda r: [6500, km(r), km(r), 10 * sec(r) + 7, mu(r)],
        "twobody.rp_islower_rmin": lambda r: [6500] + rv(r) + [mu(r)],
        "twobody.is_short_way": lambda r: rv(r) + [orbit(r)[0]],
        "twobody.pass_perigee": lambda r: rv(r) + [orbit(r)[0], mu(r)],
        "gravity.point_mass_grav": lambda r: [sec(r), rv(r)[0] + rv(r)[1], dict(mu=mu(r))],
        "gravity.j2_acc": lambda r: [sec(r), rv(r)[0] + rv(r)[1], dict(mu=mu(r), J2=1, R_eq=6378)],
        "gravity.j3_acc": lambda r: [sec(r), rv(r)[0] + rv(r)[1], dict(mu=mu(r), J3=1, R_eq=6378)],
        "gravity.j4_acc": lambda r: [sec(r), rv(r)[0] + rv(r)[1], dict(mu=mu(r), J4=1, R_eq=6378)],
        "events.radius_islow": lambda r: [sec(r), rv(r)[0] + rv(r)[1], dict(rmin=6378)],
        "prop.kepler": lambda r: [sec(r)] + rv(r) + [mu(r)],
    }


@leg("C16", "bigint")
def bigint(cx):
    """Integer arguments in kilometres and seconds give what the same numbers as floats give."""
    table = big_table()
    names = sorted(table)

    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        n = names[int(t[0] * len(names))]
        args = table[n](rng)
        reps = [pick(rng, ["int", "npi", "jnpi", "jnpi", "jnp"]) if np.ndim(a) == 0 else pick(rng, ["npi", "jnpi", "jnpi", "npi32"]) for a in args]
        return dict(fn=n, args=args, reps=reps)

    def check(cx, c):
        conv = lambda x, rep: {k: represent(cx, v, rep if np.ndim(v) == 0 else "jnp") for k, v in x.items()} if isinstance(x, dict) else represent(cx, x, rep)
        rep = [("jnpi" if r == "npi32" else r) if isinstance(a, dict) else r for a, r in zip(c["args"], c["reps"])]
        args = [conv(a, r) for a, r in zip(c["args"], rep)]
        # the value of an integer is exact: the reference converts it to the session dtype
        want = cx.call(cx.jit(c["fn"]), *[conv(a, "jnp") for a in c["args"]], what=c["fn"] + " (floats)")
        # predicates and floors near a tie are not compared
        if c["fn"].startswith("twobody.") and want.dtype == bool or c["fn"] == "twobody.nmax_by_periapsis":
            vals = [refs.ld(a) for a in c["args"]]
            if c["fn"] == "twobody.is_short_way" and not api.ok_short(*vals):
                return False
            if c["fn"] == "twobody.pass_perigee" and not api.ok_perigee(*vals):
                return False
            if c["fn"] == "twobody.rp_islower_rmin":
                h = refs.cross(vals[1], vals[2])
                e = refs.norm(refs.cross(vals[2], h) / vals[3] - vals[1] / refs.norm(vals[1]))
                if abs(refs.dot(h, h) / vals[3] / (1 + e) - 6500) < 10:
                    return False
            if c["fn"] == "twobody.nmax_by_periapsis" and not api.ok_nmax(*vals):
                return False
        f = cx.jit(c["fn"]) if c["fn"] == "prop.kepler" else cx.get(c["fn"])
        got = cx.call(f, *args, what=f"{c['fn']} on integers")
        g = got if isinstance(got, tuple) else (got,)
        w = want if isinstance(want, tuple) else (want,)
        for k, (a, b) in enumerate(zip(g, w)):
            if a.dtype == bool:
                cx.true(bool(a == b), f"{c['fn']} on integers differs from the same numbers as floats", **{k: v for k, v in c.items() if k != "fn"})
                continue
            a, b = a.astype(float), b.astype(float)
            if c["fn"] == "rv2coe" and k >= 3:
                a = b + refs.wrap(a - b).astype(float)
            rel = 1e-8 if cx.x64 else (0.05 if c["fn"] == "prop.kepler" else 3e-3)
            cx.close(a, b, rel * (np.abs(b).max() if b.size else 1), f"{c['fn']} on integers against the same numbers as floats (result {k})", args=c["args"], reps=rep)
        return True

    return gen.uniforms(2).map(dec), check


# ---- gravity, events ---------------------------------------------------------------------------
GRAV = {
    "gravity.point_mass_grav": dict(mu=1.0), "gravity.j2_acc": dict(mu=1.0, J2=0.0, R_eq=1.0),
    "gravity.j3_acc": dict(mu=1.0, J3=0.0, R_eq=1.0), "gravity.j4_acc": dict(mu=1.0, J4=0.0, R_eq=1.0),
    "events.radius_islow": dict(rmin=0.0),
}


@leg("C16", "forces")
def forces(cx):
    names = sorted(GRAV)

    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        n = names[int(t[0] * len(names))]
        ints = rng.random() < 0.4
        d = np.float64 if cx.x64 else np.float32
        x = api.vec(rng.random(4)) + [float(v) for v in rng.uniform(-1, 1, 3)]
        if ints:
            x = [float(round(2 * v)) for v in x]
            if not any(x[:3]):
                x[0] = 1.0
        x = np.asarray(x, dtype=d).astype(float).tolist()
        if rng.random() < 0.4:
            x = x[:3]
        ov = {}
        for k, v in GRAV[n].items():
            val = float(d({"mu": 0.3 + 3 * rng.random(), "R_eq": 0.5 + rng.random(), "rmin": 2 * rng.random()}.get(k, rng.uniform(-1, 1))))
            ov[k] = float(max(1, round(val))) if ints else val
        reps = {k: pick(rng, SCALAR + (SCALAR_INT if ints else [])) for k in ov}
        return dict(
            fn=n, x=x, xr=pick(rng, ARRAY + (ARRAY_INT * 2 if ints else [])), p=ov, reps=reps,
            t=pick(rng, [0, 0.0, 1.5, None]), style=pick(rng, ["pos", "kw", "omit"]), extra=bool(rng.random() < 0.3),
        )

    def check(cx, c):
        p = GRAV[c["fn"]] if c["style"] == "omit" else c["p"]
        x = represent(cx, c["x"], c["xr"])
        kw = {k: represent(cx, v, c["reps"][k]) for k, v in c["p"].items()}
        if c["extra"]:
            kw["other"] = 5.0
        f = cx.get(c["fn"])
        try:
            if c["style"] == "omit":
                raw = f(c["t"], x)
            elif c["style"] == "pos":
                raw = f(c["t"], x, kw)
            else:
                raw = f(t=c["t"], x=x, args=kw)
        except Exception as e:
            raise Violation(f"{c['fn']} raised {type(e).__name__}: {str(e)[:300]} on {c}")
        want = cx.call(cx.jit(c["fn"]), 0.0, cx.jnp.asarray(cx.a(c["x"])), {k: cx.jnp.asarray(cx.a(v)) for k, v in p.items()}, what=c["fn"])
        ints = all(v == round(v) for v in list(p.values()) + c["x"])
        check_dtype(cx, raw, "V", ints, True, c["fn"], case=c)
        cx.close(np.asarray(raw).astype(float), want, api.tolerance(cx) * max(1.0, float(np.abs(want).max())), f"{c['fn']} with other argument representations", case=c)
        return True

    return gen.uniforms(2).map(dec), check


# ---- propagators ---------------------------------------------------------------------------------
ENTRY = ["to_final", "adaptive_steps", "fixed_steps", "custom_steps", "cowell_method"]


@leg("C16", "propagators")
def propagators(cx):
    def dec(t):
        rng = np.random.default_rng(int(t[1] * 2**24))
        e = ENTRY[int(t[0] * len(ENTRY))]
        d = np.float64 if cx.x64 else np.float32
        x0 = [1.0, 0.0, 0.0, 0.0, 1.0, 0.0] if rng.random() < 0.4 else [float(d(v)) for v in (1 + 0.1 * rng.random(), 0.1 * rng.random(), 0, 0.1 * rng.random(), 0.9 + 0.2 * rng.random(), 0.1)]
        T = float(1 + int(3 * rng.random())) if rng.random() < 0.5 else float(d(0.5 + 3 * rng.random()))
        if rng.random() < 0.35:
            # close to a whole number, but not one
            T = float(d(round(T + 0.5) * (1 + pick(rng, [1, -1]) * 10 ** rng.uniform(-5, -2))))
        return dict(
            entry=e, x0=x0, t1=T, xr=pick(rng, ["npf", "jnp", "npd"] + (["jnpi", "npi"] if x0[0] == 1.0 and x0[4] == 1.0 and not any(x0[k] for k in (1, 2, 3, 5)) else [])),
            tr=pick(rng, SCALAR + (SCALAR_INT if T == round(T) else [])), mr=pick(rng, SCALAR + SCALAR_INT),
            dt=pick(rng, ["py", "npf", "jnp"]), n=int(rng.integers(2, 5)), tsr=pick(rng, ["npf", "jnp"]),
            omit=bool(rng.random() < 0.4), kw=bool(rng.random() < 0.5),
        )

    def check(cx, c):
        P, jnp = cx.adx.prop, cx.jnp
        vf = plain_field(cx)
        xs = []
        for ref in (True, False):
            x0 = jnp.asarray(cx.a(c["x0"])) if ref else represent(cx, c["x0"], c["xr"])
            t1 = jnp.asarray(cx.a(c["t1"])) if ref else represent(cx, c["t1"], c["tr"])
            dt = 0.125 if ref else represent(cx, 0.125, c["dt"])
            mu = jnp.asarray(cx.a(1.0)) if ref else represent(cx, 1.0, c["mr"])
            ts = cx.a(np.linspace(0.0, c["t1"], c["n"]))
            ts = jnp.asarray(ts) if ref or c["tsr"] == "jnp" else ts.astype(np.float64)
            try:
                o = P.OrbDynx(terms=cx.adx.diffeq.ODETerm(vf), **({} if c["omit"] and not ref else dict(args=dict(mu=mu))))
                f = getattr(P, c["entry"])
                a = {"to_final": (t1,), "adaptive_steps": (t1,), "fixed_steps": (t1, dt), "custom_steps": (t1, ts), "cowell_method": (t1, cx.adx.diffeq.SaveAt(t1=True))}[c["entry"]]
                kn = {"fixed_steps": ("t1", "dt"), "custom_steps": ("t1", "ts"), "cowell_method": ("t1", "saveat")}.get(c["entry"], ("t1",))
                s = f(o, x0, **dict(zip(kn, a))) if c["kw"] and not ref else f(o, x0, *a)
            except Exception as e:
                raise Violation(f"{c['entry']} raised {type(e).__name__}: {str(e)[:400]} on {c}")
            if not ref:
                dts = (np.asarray(s.ys).dtype, np.asarray(s.ts).dtype)
                cx.true(all(d == np.dtype(cx.dt) for d in dts), f"{c['entry']}: result dtype {dts}, session precision {np.dtype(cx.dt)}", case=c)
            ts_, ys_ = np.asarray(s.ts, dtype=float), np.asarray(s.ys, dtype=float)
            k = np.isfinite(ts_) if ts_.ndim else np.ones((), bool)
            xs.append((ts_[k], ys_[k]))
        (ta, ya), (tb, yb) = xs
        cx.true(ta.shape == tb.shape, f"{c['entry']}: number of reported states {tb.shape} depends on the representation ({ta.shape})", case=c)
        cx.close(tb, ta, 1e-9 if cx.x64 else 1e-4, f"{c['entry']} times with other representations", case=c)
        cx.close(yb, ya, 1e-7 if cx.x64 else 1e-3, f"{c['entry']} states with other representations", case=c)
        return True

    return gen.uniforms(2).map(dec), check


def plain_field(cx):
    g, jnp = cx.adx.gravity, cx.jnp
    if not hasattr(cx, "_plain"):
        def vf(t, x, args):
            return jnp.concatenate([x[3:], g.point_mass_grav(t, x, args)])
        cx._plain = vf
    return cx._plain
