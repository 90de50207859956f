"""C08: numerical propagation solves the given dynamics at the requested times."""
import types
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import odes
import refs
from refs import L


def wrappers(cx):
    """Compiled entry points over (x0, t1, ts, dt, args); explicit=True spells the defaults out."""
    key = "c08"
    if key in cx._jit:
        return cx._jit[key]
    import diffrax as dx

    prop, dq = cx.adx.prop, cx.adx.diffeq if hasattr(cx.adx, "diffeq") else None
    import astrodynx.diffeq as dq

    term = dq.ODETerm(odes.vector_field(cx))
    od = lambda a: prop.OrbDynx(terms=term, args=a)
    out = lambda s: dict(ts=s.ts, ys=s.ys, n=s.stats["num_accepted_steps"], ok=s.result == dx.RESULTS.successful)
    sav = dq.SaveAt
    tight = lambda: dict(solver=dq.Tsit5(), stepsize_controller=dq.PIDController(rtol=1e-8, atol=1e-8))
    pid = lambda tol: dict(stepsize_controller=dq.PIDController(rtol=tol, atol=tol))
    j = cx.jax.jit
    solvers = dict(Euler=dx.Euler(), Heun=dx.Heun(), Midpoint=dx.Midpoint(), Tsit5=dx.Tsit5(), Dopri8=dx.Dopri8())
    w = dict(
        adaptive=j(lambda x, t1, ts, a: out(prop.adaptive_steps(od(a), x, t1))),
        custom=j(lambda x, t1, ts, a: out(prop.custom_steps(od(a), x, t1, ts))),
        final=j(lambda x, t1, ts, a: out(prop.to_final(od(a), x, t1))),
        cowell_end=j(lambda x, t1, ts, a: out(prop.cowell_method(od(a), x, t1, sav(t1=True)))),
        cowell_steps=j(lambda x, t1, ts, a: out(prop.cowell_method(od(a), x, t1, sav(t0=True, steps=True), dt0=t1 * 0.01))),
        cowell_ts=j(lambda x, t1, ts, a: out(prop.cowell_method(od(a), x, t1, sav(ts=ts, t1=True), max_steps=3000))),
        adaptive_x=j(lambda x, t1, ts, a: out(prop.adaptive_steps(od(a), x, t1, 4096, **tight()))),
        custom_x=j(lambda x, t1, ts, a: out(prop.custom_steps(od(a), x, t1, ts, **tight()))),
        final_x=j(lambda x, t1, ts, a: out(prop.to_final(od(a), x, t1, **tight()))),
        cowell_end_x=j(lambda x, t1, ts, a: out(prop.cowell_method(od(a), x, t1, sav(t1=True), None, 4096, **tight()))),
        adaptive_tol=j(lambda x, t1, tol, a: out(prop.adaptive_steps(od(a), x, t1, **pid(tol)))),
        custom_tol=j(lambda x, t1, ts, tol, a: out(prop.custom_steps(od(a), x, t1, ts, **pid(tol)))),
        final_tol=j(lambda x, t1, tol, a: out(prop.to_final(od(a), x, t1, **pid(tol)))),
        cowell_tol=j(lambda x, t1, tol, a: out(prop.cowell_method(od(a), x, t1, sav(t1=True), **pid(tol)))),
        fixed=j(lambda x, t1, dt, a: out(prop.fixed_steps(od(a), x, t1, dt))),
        fixed_cowell=j(lambda x, t1, dt, a: out(prop.cowell_method(od(a), x, t1, sav(t0=True, steps=True), dt, stepsize_controller=dq.ConstantStepSize()))),
    )
    for n, s in solvers.items():
        w["fixed_" + n] = j(lambda x, t1, dt, a, s=s: out(prop.fixed_steps(od(a), x, t1, dt, solver=s)))
        w["tab_" + n] = getattr(s, "tableau", None) or types.SimpleNamespace(c=[], a_lower=[], b_sol=[1.0])  # Euler
    for n in (3, 10, 40, 16384):
        w[f"adaptive_max{n}"] = j(lambda x, t1, dt, a, n=n: out(prop.adaptive_steps(od(a), x, t1, max_steps=n)))
        w[f"fixed_max{n}"] = j(lambda x, t1, dt, a, n=n: out(prop.fixed_steps(od(a), x, t1, dt, max_steps=n)))
        w[f"cowell_max{n}"] = j(lambda x, t1, dt, a, n=n: out(prop.cowell_method(od(a), x, t1, sav(t1=True), max_steps=n)))
    w["cowell_unlimited"] = j(lambda x, t1, dt, a: out(prop.cowell_method(od(a), x, t1, sav(t1=True), max_steps=None)))
    cx._jit[key] = w
    return w


def saved(cx, o, what, t1, info):
    """Finite part of a padded solution; checks the padding, order and end points."""
    ts, ys = o["ts"], o["ys"]
    cx.true(ts.ndim == 1 and ys.shape == ts.shape + (6,), f"{what}: shapes of ts and ys", ts=ts.shape, ys=ys.shape)
    cx.true(ts.dtype == cx.dt and ys.dtype == cx.dt, f"{what}: dtype", ts=str(ts.dtype), ys=str(ys.dtype))
    ok = np.isfinite(ts)
    n = int(ok.sum())
    cx.true(ok[:n].all() and np.isposinf(ts[n:]).all(), f"{what}: unused slots are inf, after the used ones", ts=ts[: n + 3].tolist(), **info)
    cx.true(np.isfinite(ys[:n]).all() and not np.isfinite(ys[n:]).any(), f"{what}: states are finite exactly at the saved times", **info)
    cx.true(bool(o["ok"]), f"{what}: reports success", **info)
    return ts[:n], ys[:n]


def accurate(cx, what, ts, ys, want, G, n, tol, info, C=1.0):
    scale = 1 + np.abs(want).max()
    lim = C * (tol + 4 * L(cx.eps)) * (n + 5) * G[:, None] * scale
    cx.close(ys, want, np.broadcast_to(lim, want.shape), f"{what}: state at the reported time is the true state", **info)


def grid_checks(cx, what, ts, t1, info, start=True):
    if start:
        cx.true(ts[0] == 0, f"{what}: starts at time zero", t0=float(ts[0]), **info)
    cx.true(ts[-1] == t1, f"{what}: ends at the requested time", last=float(ts[-1]), **info)
    cx.true((np.diff(ts) * np.sign(t1) > 0).all(), f"{what}: times run from the start to the end", **info)


case = lambda: st.fixed_dictionaries(dict(orb=odes.orbit(), p=odes.force_params(), ts=st.lists(gen.f_(0, 1), min_size=4, max_size=4)))


def setup(cx, c, revs=None):
    x0, mu, t1 = odes.initial(cx, c["orb"], revs or (1.5 if cx.x64 else 0.7))
    args = odes.lib_args(cx, mu, c["p"])
    info = dict(x0=x0.tolist(), mu=float(mu), p=c["p"], t1=float(t1))
    return x0, mu, t1, args, info


@leg("C08", "entry")
def entry(cx):
    """Adaptive entry points against the true solution, with default settings."""
    w = wrappers(cx)

    def check(cx, c):
        x0, mu, t1, args, info = setup(cx, c)
        m = c["m"]
        ts = np.unique(np.minimum(cx.a([min(max(k, 0), 1) * float(t1) for k in c["ts"][:m]]), t1))
        if len(ts) < m:
            ts = np.unique(np.append(ts, cx.a(np.linspace(0.1, 0.9, m - len(ts)) * float(t1))))
        if len(ts) < m:
            return False
        if c["back"]:
            t1, ts = -t1, -ts
            info["t1"] = float(t1)
        if not odes.regular(cx, x0, mu, c["p"], t1):
            return False
        res = {}
        for n in ("adaptive", "custom", "final", "cowell_end", "cowell_steps", "cowell_ts"):
            res[n] = cx.call(w[n], x0, t1, ts, args, what=n)
        # all reported times at once
        fin = {n: saved(cx, o, n, t1, info) for n, o in res.items()}
        allt = np.concatenate([fin[n][0] for n in fin])
        T = odes.truth(x0, mu, c["p"], allt, cx.dt)
        if T is None:
            return False
        G = odes.growth(x0, mu, allt)
        k = 0
        for n, (tt, yy) in fin.items():
            m = len(tt)
            acc = int(res[n]["n"])
            accurate(cx, n, tt, yy, T[k : k + m], G[k : k + m], acc, L(1e-8), dict(info, ts=tt[:12].tolist()), C=1.0)
            k += m
        for n in ("adaptive", "cowell_steps"):
            tt, yy = fin[n]
            grid_checks(cx, n, tt, t1, info)
            cx.true(np.array_equal(yy[0], x0), f"{n}: first state is the initial state", y0=yy[0].tolist(), **info)
            cx.true(len(tt) == int(res[n]["n"]) + 1, f"{n}: one entry per accepted step", entries=len(tt), steps=int(res[n]["n"]), **info)
        cx.true(np.array_equal(fin["custom"][0], ts), "custom_steps: reports exactly the requested times", got=fin["custom"][0].tolist(), want=ts.tolist())
        got = fin["cowell_ts"][0]
        cx.true(np.array_equal(got, np.append(ts, t1)), "cowell_method: reports exactly the requested times", got=got.tolist(), want=ts.tolist())
        for n in ("final", "cowell_end"):
            cx.true(fin[n][0].tolist() == [float(t1)] and fin[n][1].shape == (1, 6), f"{n}: reports exactly the final time", ts=fin[n][0].tolist(), **info)
        return bool(c["p"])

    return st.fixed_dictionaries(dict(
        orb=odes.orbit(), p=odes.force_params(), ts=st.lists(gen.f_(0, 1), min_size=9, max_size=9), m=st.sampled_from([1, 4, 4, 4, 9]), back=st.sampled_from([False, False, True]),
    )), check


@leg("C08", "defaults")
def defaults(cx):
    """Omitted settings equal the documented ones (Tsit5, tolerances 1e-8, 4096 steps); requested
    tolerances are honoured."""
    w = wrappers(cx)
    strat = st.fixed_dictionaries(dict(orb=odes.orbit(), p=odes.force_params(), ts=st.lists(gen.f_(0.01, 1), min_size=4, max_size=4), tol=gen.logf(1e-11 if cx.x64 else 1e-6, 1e-4)))

    def check(cx, c):
        x0, mu, t1, args, info = setup(cx, c)
        ts = np.unique(np.minimum(cx.a([k * float(t1) for k in c["ts"]]), t1))
        if len(ts) < 4 or not odes.regular(cx, x0, mu, c["p"], t1):
            return False
        G = odes.growth(x0, mu, [float(t1)])[0]
        for n in ("adaptive", "custom", "final", "cowell_end"):
            a = cx.call(w[n], x0, t1, ts, args, what=n)
            b = cx.call(w[n + "_x"], x0, t1, ts, args, what=n + " with explicit settings")
            (ta, ya), (tb, yb) = saved(cx, a, n, t1, info), saved(cx, b, n, t1, info)
            cx.true(abs(int(a["n"]) - int(b["n"])) <= (0 if cx.x64 else 4), f"{n}: same number of steps as with the documented default settings spelled out", default=int(a["n"]), explicit=int(b["n"]), **info)
            if len(ta) == len(tb):
                lim = 1e4 * L(cx.eps) * G * (1 + np.abs(yb).max())
                cx.close(ta, tb, lim * max(1, float(t1)), f"{n}: same times as with the documented default settings", **info)
                cx.close(ya[-1], yb[-1], np.full(6, lim), f"{n}: same states as with the documented default settings", **info)
        tol = cx.dt(c["tol"])
        ref = int(cx.call(w["final"], x0, t1, ts, args)["n"])
        if ref * (1e-8 / float(tol)) ** 0.25 > 1500:
            return False  # a tight tolerance may need more steps than the documented limit
        for n in ("adaptive_tol", "final_tol", "custom_tol", "cowell_tol"):
            o = cx.call(w[n], x0, t1, *((ts,) if n == "custom_tol" else ()), tol, args, what=n)
            tt, yy = saved(cx, o, n, t1, info)
            T = odes.truth(x0, mu, c["p"], tt, cx.dt)
            if T is None:
                return False
            if n != "custom_tol":  # dense output has its own, lower order
                lim = float(tol) * (int(o["n"]) + 5) * G * (1 + float(np.abs(T).max()))
                if lim < 0.05:
                    accurate(cx, n, tt, yy, T, odes.growth(x0, mu, tt) if len(tt) < 4 else np.full(len(tt), G), int(o["n"]), L(tol), dict(info, tol=float(tol)), C=3.0)
            if cx.x64:
                # loose tolerances take fewer steps than the default, tight ones more
                m = int(o["n"])
                if tol > 1e-6 and ref > 12:
                    cx.true(m < ref, f"{n}: a looser tolerance takes fewer steps", steps=m, default=ref, **info)
                if tol < 1e-10:
                    cx.true(m > ref, f"{n}: a tighter tolerance takes more steps", steps=m, default=ref, **info)
        return True

    return strat, check


def rk_step(tab, f, t, y, h, jitter=None):
    """One explicit Runge-Kutta step from its Butcher tableau; jitter disturbs the state of every stage."""
    jitter = jitter or (lambda s: s)
    k = [f(t, jitter(y))]
    for c, row in zip(tab.c, tab.a_lower):
        s = y.copy()
        for a, kk in zip(row, k):
            s = s + h * float(a) * kk
        k.append(f(t + float(c) * h, jitter(s)))
    return y + h * sum(float(b) * kk for b, kk in zip(tab.b_sol, k))


@leg("C08", "fixed")
def fixed(cx):
    """Fixed steps: step lengths, and every step is the chosen method's step of the given dynamics."""
    w = wrappers(cx)
    strat = st.fixed_dictionaries(
        dict(orb=odes.orbit(), p=odes.force_params(), n=st.one_of(st.integers(3, 60), st.integers(3, 400)), fr=st.one_of(st.just(0.0), gen.f_(0, 0.95)),
             back=st.sampled_from([False, False, True]),
             s=st.sampled_from(["", "", "_Euler", "_Heun", "_Midpoint", "_Tsit5", "_Dopri8", "_cowell"])))

    def check(cx, c):
        x0, mu, t1, args, info = setup(cx, c, 1.0)
        dt = cx.dt(float(t1) / (c["n"] + c["fr"]))
        if c["back"]:
            t1, dt = -t1, -dt
            info["t1"] = float(t1)
        name = "fixed" + c["s"]
        o = cx.call(w[name], x0, t1, dt, args, what=name)
        info = dict(info, dt=float(dt))
        if not np.isfinite(o["ys"][: c["n"]]).all():
            return False  # a crude method may blow up
        ts, ys = saved(cx, o, name, t1, info)
        grid_checks(cx, name, ts, t1, info)
        eps = L(cx.eps)
        steps = np.diff(ts.astype(L))
        slack = 8 * eps * abs(L(t1))
        cx.true((np.abs(steps) <= abs(L(dt)) + slack).all(), f"{name}: no step exceeds the fixed step", longest=float(np.abs(steps).max()), **info)
        q = L(t1) / L(dt)
        cx.true(np.ceil(q * (1 - 8 * eps)) <= len(steps) <= np.ceil(q * (1 + 8 * eps)) + 1, f"{name}: as many steps as the fixed step requires", steps=len(steps), **info)
        cx.true(np.array_equal(ys[0], x0), f"{name}: first state is the initial state", **info)
        tab = w["tab_" + (c["s"][1:] if c["s"] not in ("", "_cowell") else "Tsit5")]
        f = odes.reference_field(mu, c["p"], cx.dt)
        idx = np.unique(np.linspace(0, len(steps) - 1, 8).astype(int))
        for i in idx:
            y = ys[i].astype(float)
            if np.linalg.norm(y[:3]) < 0.2:
                continue
            want = rk_step(tab, f, float(ts[i]), y, float(steps[i]))
            sc = np.abs(want).max() + np.abs(y).max()
            # perturbation of the step through rounded stages, and of t through rounded times
            fac = 1 + float(mu) * float(dt) ** 2 / np.linalg.norm(y[:3]) ** 3
            h = float(steps[i])
            lim = 64 * float(eps) * (sc + abs(h) * np.abs(f(float(ts[i]), y)).max()) * fac * fac + 8 * float(eps) * abs(float(t1)) * np.abs(f(float(ts[i]), y)).max()
            if not np.isfinite(want).all() or fac > 5:
                continue
            if fac > 1.1:  # stages far from the start: what rounding of the stages does, by experiment
                rng = np.random.default_rng(7)
                J = [rk_step(tab, f, float(ts[i]), y, h, lambda s: s + 1e-8 * np.abs(s).max() * rng.uniform(-1, 1, 6)) for _ in range(3)]
                lim += 32 * float(eps) * max(np.abs(k - want).max() for k in J) / 1e-8
                if not lim < 1e-3 * sc:
                    continue
            cx.close(ys[i + 1], want, np.full(6, lim), f"{name}: step {i} is one step of the chosen method on the given dynamics", t=float(ts[i]), h=h, y=y.tolist(), **info)
        return len(steps) >= 3

    return strat, check


@leg("C08", "limits")
def limits(cx):
    """A step limit too small for the arc is an error, never a silently unfinished result."""
    w = wrappers(cx)
    strat = st.fixed_dictionaries(
        dict(orb=odes.orbit(), p=odes.force_params(), m=st.sampled_from([3, 10, 40]), k=st.sampled_from(["adaptive", "fixed", "cowell"]), n=gen.f_(0.3, 80)))

    def check(cx, c):
        x0, mu, t1, args, info = setup(cx, c)
        t1 = cx.dt(float(t1) * (0.02 if c["n"] < 10 else 1))
        dt = cx.dt(float(t1) / c["n"])
        if not odes.regular(cx, x0, mu, c["p"], t1):
            return False
        f = w[f"{c['k']}_max{c['m']}"]
        try:
            o = cx.jax.tree_util.tree_map(np.asarray, f(x0, t1, dt, args))
        except Exception as e:
            # an error is right only if the arc needs more steps than allowed
            cx.true("max_steps" in str(e) or "maximum number" in str(e).lower() or "steps" in str(e).lower(), "step-limit error names its cause", error=str(e)[:300])
            if c["k"] == "fixed":
                cx.true(c["n"] > c["m"] - 2, "a sufficient step limit is not an error", steps=c["n"], limit=c["m"])
            else:
                ref = cx.call(w["final"], x0, t1, cx.a([0, 0, 0, 0]), args, what="final")
                # rejected steps count too
                cx.true(int(ref["n"]) * 3 + 6 > c["m"], "a sufficient step limit is not an error", steps=int(ref["n"]), limit=c["m"])
            return True
        ts = o["ts"][np.isfinite(o["ts"])]
        cx.true(len(ts) and ts[-1] == t1, f"{c['k']}: a result that is returned is finished", last=ts[-3:].tolist(), limit=c["m"], **info)
        cx.true(int(o["n"]) <= c["m"], f"{c['k']}: the step limit is respected", steps=int(o["n"]), limit=c["m"], **info)
        return c["n"] > 1

    return strat, check


@leg("C08", "short")
def short(cx):
    """Empty and very short spans, forward and backward: one step, so accurate to rounding."""
    w = wrappers(cx)
    strat = st.fixed_dictionaries(dict(
        orb=odes.orbit(), p=odes.force_params(), s=st.one_of(st.just(0.0), gen.logf(1e-9, 1e-4), gen.logf(1e-9, 1e-4)), back=st.booleans(), n=st.sampled_from([0.3, 1.0, 2.5, 7.2]),
    ))

    def check(cx, c):
        x0, mu, _, args, info = setup(cx, c)
        t1 = cx.dt((-1 if c["back"] else 1) * c["s"] * np.sqrt(c["orb"]["q"] ** 3 / float(mu)))
        dt = cx.dt(t1 / c["n"]) if t1 else cx.dt(-0.1 if c["back"] else 0.1)
        info["t1"] = float(t1)
        odes.check_reference(x0, float(mu), c["p"])
        f = odes.reference_field(mu, c["p"], cx.dt)
        y0 = x0.astype(float)

        def step(h):
            g = lambda t, y: np.asarray(f(t, y), dtype=float)
            k1 = g(0, y0)
            k2 = g(h / 2, y0 + h / 2 * k1)
            k3 = g(h / 2, y0 + h / 2 * k2)
            return h / 6 * (k1 + 2 * k2 + 2 * k3 + g(h, y0 + h * k3))

        rate = np.abs(np.asarray(f(0.0, y0), dtype=float)).max()
        ts = np.unique(cx.a([0.5 * float(t1), float(t1)]))[:: -1 if c["back"] else 1]
        res = {n: cx.call(w[n], x0, t1, ts, args, what=n) for n in ("adaptive", "custom", "final", "cowell_end", "cowell_ts")}
        res["fixed"] = cx.call(w["fixed"], x0, t1, dt, args, what="fixed_steps")
        for n, o in res.items():
            tt, yy = saved(cx, o, n, t1, info)
            if n in ("adaptive", "fixed"):
                cx.true(tt[0] == 0 and tt[-1] == t1, f"{n}: runs from zero to the requested end of a short span", got=tt.tolist(), dt=float(dt), **info)
                if n == "fixed" and t1:
                    cx.true((np.abs(np.diff(tt)) <= abs(dt) + 4 * cx.eps * abs(t1)).all() and len(tt) == 1 + int(np.ceil(c["n"])), "fixed_steps: steps of the requested length", got=tt.tolist(), dt=float(dt), **info)
            elif n == "custom":
                cx.true(np.array_equal(tt, ts), f"{n}: reports exactly the requested times", got=tt.tolist(), want=ts.tolist(), **info)
            else:
                cx.true(tt[-1] == t1, f"{n}: ends at the requested time", got=tt.tolist(), **info)
            want = np.array([y0 + step(float(t)) for t in tt])
            lim = 4 * float(cx.eps) * (len(tt) * np.abs(y0).max() + abs(float(t1)) * rate)
            cx.close(yy, want, lim, f"{n}: state after a very short span", **info)
        return bool(t1)

    return strat, check


@leg("C08", "long", modes=("x64",))
def long(cx):
    """Many revolutions: custom times are reached however many steps that takes; the default limit
    of the other entry points is 4096 steps."""
    w = wrappers(cx)
    strat = st.fixed_dictionaries(dict(orb=odes.orbit(0.6), revs=st.one_of(gen.f_(5, 70), gen.f_(60, 130)), ts=st.lists(gen.f_(0, 1), min_size=3, max_size=3), n=gen.f_(1500, 6500)))

    def check(cx, c):
        o = dict(c["orb"], T=0.0)
        o["e"] = min(o["e"], 0.6)
        x0, mu, t1 = odes.initial(cx, o)
        t1 = cx.dt(float(t1) / 0.02 * c["revs"])
        args = odes.lib_args(cx, mu, {})
        info = dict(x0=x0.tolist(), mu=float(mu), t1=float(t1))
        ts = np.append(np.sort(cx.a([k * float(t1) for k in c["ts"]])), t1)
        r = cx.call(w["custom"], x0, t1, ts, args, what="custom_steps")
        tt, yy = saved(cx, r, "custom_steps", t1, info)
        cx.true(np.array_equal(tt, ts), "custom_steps: reports exactly the requested times", got=tt.tolist(), want=ts.tolist())
        n = int(r["n"])
        G = odes.growth(x0, mu, ts)
        accurate(cx, "custom_steps", tt, yy, odes.truth(x0, mu, {}, tt), G, n, L(1e-8), info)
        for k in ("final", "adaptive", "cowell_end"):
            if n < 3200:
                f = cx.call(w[k], x0, t1, ts, args, what=k)
                ft, fy = saved(cx, f, k, t1, info)
                cx.true(ft[-1] == t1, f"{k}: ends at the requested time", last=float(ft[-1]), **info)
                accurate(cx, k, ft[-1:], fy[-1:], odes.truth(x0, mu, {}, ft[-1:]), G[-1:], n, L(1e-8), info)
            elif n > 4200:
                # more steps than the limit allows: an error, or at any rate not an unfinished arc
                try:
                    f = cx.jax.tree_util.tree_map(np.asarray, w[k](x0, t1, ts, args))
                except Exception:
                    continue
                fin = np.isfinite(f["ts"])
                cx.true(fin.any() and f["ts"][fin][-1] == t1 and bool(f["ok"]), f"{k}: a result that is returned is finished", last=float(f["ts"][fin][-1]), **info)
                accurate(cx, k, f["ts"][fin][-1:], f["ys"][fin][-1:], odes.truth(x0, mu, {}, f["ts"][fin][-1:]), G[-1:], n, L(1e-8), info)
        m = c["n"]
        dt = cx.dt(float(t1) / m)
        if 4200 < n < 12000:  # a limit the caller has raised is the limit
            for k in ("adaptive", "cowell", "cowell_unlimited"):
                f = cx.call(w[k if "_" in k else k + "_max16384"], x0, t1, dt, args, what=k + " with more steps allowed")
                ft, fy = saved(cx, f, k, t1, info)
                cx.true(ft[-1] == t1, f"{k}: ends at the requested time when the step limit is raised", last=float(ft[-1]), **info)
                accurate(cx, k, ft[-1:], fy[-1:], odes.truth(x0, mu, {}, ft[-1:]), G[-1:], n, L(1e-8), info)
        if m > 4150:
            f = cx.call(w["fixed_max16384"], x0, t1, dt, args, what="fixed_steps with 16384 steps allowed")
            fin = np.isfinite(f["ts"])
            cx.true(f["ts"][fin][-1] == t1 and m - 1 <= fin.sum() - 1 <= m + 2, "fixed_steps: takes as many steps as needed when the limit is raised", steps=int(fin.sum()), want=m, **info)
        if m < 4050:
            f = cx.call(w["fixed"], x0, t1, dt, args, what="fixed_steps")
            fin = np.isfinite(f["ts"])
            cx.true(f["ts"][fin][-1] == t1 and m - 1 <= fin.sum() - 1 <= m + 2, "fixed_steps: takes as many steps as needed up to 4096", steps=int(fin.sum()), want=m, **info)
        elif m > 4150:
            try:
                f = cx.jax.tree_util.tree_map(np.asarray, w["fixed"](x0, t1, dt, args))
            except Exception:
                return True
            fin = np.isfinite(f["ts"])
            cx.true(fin.any() and f["ts"][fin][-1] == t1, "fixed_steps: a result that is returned is finished", last=float(f["ts"][fin][-1]), **info)
        return n > 1000

    return strat, check


# ---- settings: solver, controller, kind of parameters, kind of output ------------------------------
OUTPUTS = ("adaptive", "custom", "final", "steps", "both", "dense", "subs")


def settings_wrapper(cx, solver, kind, dims, output):
    """A compiled propagation with the given settings; returns a dictionary of arrays."""
    key = ("c08s", solver, kind, dims, output)
    if key in cx._jit:
        return cx._jit[key]
    import diffrax as dx
    import astrodynx.diffeq as dq

    prop, jnp, g = cx.adx.prop, cx.jnp, cx.adx.gravity
    sav = dq.SaveAt

    def unpack(a, mu):
        """The parameters as the force model finds them; None means that it has them built in."""
        if kind == "dict":
            return a["mu"]
        if kind == "tuple":
            return a[1][0]
        if kind == "array":
            return a[2]
        if kind == "scalar":
            return a
        return mu

    def pack(mu):
        return dict(dict={"mu": mu, "unused": jnp.ones(3)}, tuple=(jnp.zeros(2), [mu]), array=jnp.stack([0 * mu, 0 * mu, mu]), scalar=mu, none=None)[kind]

    def run(x, t1, ts, mu, tol):
        def vf(t, y, a):
            m = unpack(a, mu)
            one = lambda s: jnp.concatenate([s[3:6], g.point_mass_grav(t, s, {"mu": m})])
            if dims == 12:
                return jnp.concatenate([one(y[:6]), one(y[6:])])
            return jnp.concatenate([one(y)] + [m * jnp.ones(1)] * (dims - 6))

        term = dq.ODETerm(vf)
        o = prop.OrbDynx(terms=term, args=pack(mu))
        kw = dict(stepsize_controller=dq.PIDController(rtol=tol, atol=tol))
        if solver:
            kw["solver"] = getattr(dx, solver)()
        if output == "adaptive":
            s = prop.adaptive_steps(o, x, t1, **kw)
        elif output == "custom":
            s = prop.custom_steps(o, x, t1, ts, **kw)
        elif output == "final":
            s = prop.to_final(o, x, t1, **kw)
        else:
            at = dict(
                steps=lambda: sav(t0=True, steps=True),
                both=lambda: sav(t0=True, ts=ts, t1=True),
                dense=lambda: sav(dense=True, t1=True),
                subs=lambda: sav(subs=[dq.SubSaveAt(t0=True, t1=True), dq.SubSaveAt(ts=ts, fn=lambda t, y, a: y[:3] / unpack(a, mu))]),
            )[output]()
            s = prop.cowell_method(o, x, t1, at, **kw)
        res = dict(n=s.stats["num_accepted_steps"], ok=s.result == dx.RESULTS.successful)
        if output == "subs":
            res.update(ts=s.ts[0], ys=s.ys[0], ts2=s.ts[1], ys2=s.ys[1])
        else:
            res.update(ts=s.ts, ys=s.ys)
        if output == "dense":
            res["at"] = cx.jax.vmap(s.evaluate)(ts)
        return res

    w = cx._jit[key] = cx.jax.jit(run)
    return w


SOLVERS = ("", "Tsit5", "Bosh3", "Dopri5", "Dopri8", "Heun")


@leg("C08", "settings")
def settings(cx):
    """Any solver, tolerance, structure of the parameters, dimension of the state and selection of the
    output: the integration is of the given equations by the given method, and what is saved is on it."""
    import diffrax as dx

    def check(cx, c):
        x0, mu, t1 = odes.initial(cx, c["orb"], 1.0 if cx.x64 else 0.5)
        if c["back"]:
            t1 = -t1
        d = cx.dt
        solver = c["solver"]
        low = solver in ("Bosh3", "Heun")
        tol = d(max(c["tol"], (1e-7 if solver == "Bosh3" else 1e-5) if low else 0))
        dims = c["dims"]
        parts = [x0]
        if dims == 12:
            parts.append(np.array([x0[1], x0[2], x0[0], x0[4], x0[5], x0[3]], dtype=d))  # the same orbit seen from other axes
        x = np.concatenate(parts + [np.zeros(dims - 6 * len(parts), dtype=d)])
        ts = np.unique(cx.a([k * float(t1) for k in c["ts"]]))
        if len(ts) < 4:
            return False
        ts = ts if t1 > 0 else ts[::-1]
        info = dict(x0=x.tolist(), mu=float(mu), t1=float(t1), solver=solver, tol=float(tol), parameters=c["kind"], output=c["output"])
        go = lambda out, kind=c["kind"]: cx.call(settings_wrapper(cx, solver, kind, dims, out), x, t1, ts.copy(), mu, tol, what=f"{out} ({solver or 'default solver'}, {kind})")
        grow = odes.growth(x0, mu, [float(t1)])[0]
        o = go(c["output"])
        what = c["output"]
        cx.true(bool(o["ok"]), f"{what}: reports success", **info)
        tt, yy = o["ts"], o["ys"]
        fin = np.isfinite(tt)
        tt, yy = tt[fin], yy[fin]
        cx.true(yy.shape == (len(tt), dims) and np.isfinite(yy).all(), f"{what}: a state per reported time", shape=yy.shape, **info)
        want = dict(final=[t1], dense=[t1], subs=[0, t1], custom=ts, both=[0, *ts, t1]).get(what)
        if want is not None:
            cx.true(np.array_equal(tt, cx.a(want)), f"{what}: reports exactly the requested times", got=tt.tolist(), want=np.asarray(want).tolist(), **info)
        else:
            grid_checks(cx, what, tt, t1, info)
            cx.true(np.array_equal(yy[0], x), f"{what}: first state is the initial state", **info)
            # every step is one step of the chosen method
            s = getattr(dx, solver or "Tsit5")()
            f6 = odes.reference_field(mu, {}, d)

            def f(t, y):
                q = [f6(t, y[:6])] + ([f6(t, y[6:])] if dims == 12 else [np.full(dims - 6, float(mu))])
                return np.concatenate(q)

            for i in np.unique(np.linspace(0, len(tt) - 2, 6).astype(int)):
                y, h = yy[i].astype(float), float(tt[i + 1].astype(L) - tt[i].astype(L))
                if np.linalg.norm(y[:3]) < 0.2 or (dims == 12 and np.linalg.norm(y[6:9]) < 0.2):
                    continue
                nxt = rk_step(s.tableau, f, float(tt[i]), y, h)
                fac = 1 + float(mu) * h**2 / np.linalg.norm(y[:3]) ** 3
                if fac > 5:
                    continue
                # h is known to the rounding of the times only
                lim = float(cx.eps) * (128 * (np.abs(nxt).max() + np.abs(h) * np.abs(f(0, y)).max()) * fac * fac + 8 * abs(float(t1)) * np.abs(f(0, y)).max())
                cx.close(yy[i + 1], nxt, np.full(dims, lim), f"{what}: step {i} is one step of the chosen method on the given dynamics", t=float(tt[i]), h=h, **info)
        # on the true trajectory
        n = int(o["n"])
        smooth = 60.0 if low else 4.0  # the error of crude methods is estimated crudely
        lim = smooth * (float(tol) + 4 * float(cx.eps)) * (n + 5) * float(grow) * (1 + np.abs(x).max())
        if lim < 0.05:
            states = [(tt, yy[:, :6], 0)] + ([(tt, yy[:, 6:], 1)] if dims == 12 else [])
            if what == "dense":
                states += [(ts, o["at"][:, :6], 0)]
            for times, ys, k in states:
                r, v = refs.kepler_state(times, parts[k][:3], parts[k][3:], mu)
                T = np.concatenate([r, v], axis=-1)
                inner = what in ("custom", "both") or times is ts  # interpolated: order four at most
                cx.close(ys, T, np.full(T.shape, lim * (1 + np.abs(T).max()) * (20 if inner and (low or solver == "Dopri8") else 3 if inner else 1)), f"{what}: state at the reported time is the true state", **info)
            if dims == 7:
                cx.close(yy[:, 6], L(mu) * tt.astype(L), 64 * (n + 5) * float(cx.eps) * float(mu) * abs(float(t1)), f"{what}: further components of the state are integrated too", **info)
        if what == "subs":
            cx.true(np.array_equal(o["ts2"], ts), "SubSaveAt: reports exactly the requested times", **info)
            b = go("custom")
            cx.close(o["ys2"], b["ys"][:, :3].astype(L) / L(mu), (1e3 * float(cx.eps) * float(grow) * n + 8 * float(cx.eps)) * (1 + np.abs(b["ys"]).max()) / float(mu), "SubSaveAt: saves the given function of the state", **info)
        # all outputs and structures of the parameters are views of one integration
        b = go("final", "dict")
        same = abs(int(b["n"]) - n) <= (0 if cx.x64 else 3)
        cx.true(same, f"{what}: the same steps as to_final takes", steps=n, to_final=int(b["n"]), **info)
        if tt[-1] == t1 and int(b["n"]) == n:
            cx.close(yy[-1], b["ys"][-1], 1e3 * float(cx.eps) * float(grow) * (n + 5) * (1 + np.abs(yy).max()), f"{what}: ends in the same state as to_final", **info)
        return n > 5

    # one ingredient away from the default at a time, to keep the number of compilations down
    variants = [dict(solver=k) for k in (SOLVERS if cx.x64 else SOLVERS[::3])]
    variants += [dict(kind=k) for k in ("tuple", "array", "scalar", "none")] + [dict(dims=k) for k in (7, 12)]
    strat = st.fixed_dictionaries(dict(
        orb=odes.orbit(), ts=st.lists(gen.f_(0.01, 0.99), min_size=4, max_size=4), tol=gen.logf(1e-10 if cx.x64 else 1e-6, 1e-5), variant=st.sampled_from(variants), output=st.sampled_from(OUTPUTS), back=st.sampled_from([False, False, True]),
    )).map(lambda c: dict(c, **dict(dict(solver="", kind="dict", dims=6), **c["variant"])))
    return strat, check
