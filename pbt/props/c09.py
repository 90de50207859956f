"""C09: an event ends propagation exactly when, and only when, it occurs."""
import numpy as np
from hypothesis import strategies as st
from core import leg
import gen
import odes
import refs
from props import c08
from refs import L


def wrappers(cx):
    key = "c09"
    if key in cx._jit:
        return cx._jit[key]
    import diffrax as dx
    import astrodynx.diffeq as dq

    prop, jnp = cx.adx.prop, cx.jnp
    low = cx.adx.events.radius_islow
    term = dq.ODETerm(odes.vector_field(cx))

    # events of the caller's own; alone, they have a parameter of their own and no rmin
    def plane(t, x, args, **kw):
        return x[2] - args.get("floor", args.get("rmin"))

    def late(t, x, args, **kw):
        return t > args.get("floor", args.get("rmin"))

    ev = dict(
        low=dq.Event(low), none=None, plane=dq.Event(plane), late=dq.Event(late),
        several=dq.Event([low, plane, late]),
    )
    sav = dq.SaveAt
    out = lambda s: dict(
        ts=s.ts, ys=s.ys, n=s.stats["num_accepted_steps"],
        ok=(s.result == dx.RESULTS.successful), ev=(s.result == dx.RESULTS.event_occurred),
    )
    entry = dict(
        adaptive=lambda o, x, t1, ts, dt: prop.adaptive_steps(o, x, t1),
        custom=lambda o, x, t1, ts, dt: prop.custom_steps(o, x, t1, ts),
        final=lambda o, x, t1, ts, dt: prop.to_final(o, x, t1),
        fixed=lambda o, x, t1, ts, dt: prop.fixed_steps(o, x, t1, dt),
        cowell=lambda o, x, t1, ts, dt: prop.cowell_method(o, x, t1, sav(t0=True, steps=True)),
        cowell_dt=lambda o, x, t1, ts, dt: prop.cowell_method(o, x, t1, sav(t0=True, steps=True), dt, stepsize_controller=dq.ConstantStepSize()),
        cowell_end=lambda o, x, t1, ts, dt: prop.cowell_method(o, x, t1, sav(t1=True)),
    )
    w = {}

    def make(n, e):
        f = entry[n]
        return cx.jax.jit(lambda x, t1, ts, dt, a: out(f(prop.OrbDynx(terms=term, args=a, event=ev[e]) if e != "none" else prop.OrbDynx(term, a), x, t1, ts, dt)))

    for n in entry:
        for e in ev:
            w[n, e] = make(n, e)
    cx._jit[key] = w
    return w


def finite(cx, o, what, info):
    ts, ys = o["ts"], o["ys"]
    cx.true(ts.ndim == 1 and ys.shape == ts.shape + (6,), f"{what}: shapes of ts and ys", ts=ts.shape, ys=ys.shape)
    ok = np.isfinite(ts)
    n = int(ok.sum())
    cx.true(ok[:n].all() and np.isposinf(ts[n:]).all(), f"{what}: unused slots are inf, after the used ones", ts=ts[: n + 3].tolist(), **info)
    cx.true(np.isfinite(ys[:n]).all() and not np.isfinite(ys[n:]).any(), f"{what}: states are finite exactly at the saved times", **info)
    cx.true(bool(o["ok"]) or bool(o["ev"]), f"{what}: ends by success or by the event", **info)
    return ts[:n], ys[:n]


def value(kind, ts, ys, rmin):
    """The event value, positive before the event."""
    if kind == "low":
        return np.sqrt((ys[:, :3].astype(L) ** 2).sum(1)) - L(rmin)
    if kind == "plane":
        return ys[:, 2].astype(L) - L(rmin)
    return np.where(ts > rmin, L(-1), L(1))


def strategy():
    return st.fixed_dictionaries(dict(
        orb=odes.orbit(), p=odes.force_params(), z=st.one_of(gen.f_(-0.3, 1), gen.f_(-0.02, 0.02), gen.f_(0, 1)),
        ts=st.lists(gen.f_(0, 1), min_size=5, max_size=5), n=gen.f_(8, 120),
        kind=st.sampled_from(["low", "low", "low", "low", "plane", "late"]),
    ))


def arrange(cx, c):
    x0, mu, t1 = odes.initial(cx, c["orb"], 1.2 if cx.x64 else 0.7)
    if not odes.regular(cx, x0, mu, c["p"], t1):
        return None
    T = odes.truth(x0, mu, c["p"], np.linspace(0, float(t1), 200), cx.dt)
    if c["kind"] == "late":
        rmin = float(t1) * (1 - c["z"] if c["z"] > 0.02 else 1.5)
        start = 1.0
    else:
        val = refs.norm(T[:, :3]) if c["kind"] == "low" else T[:, 2]
        lo, start = float(val.min()), float(val[0])
        span = max(start - lo, 0.02 * abs(start))
        rmin = lo + c["z"] * span
        if c["kind"] == "low":
            rmin = max(rmin, 0.05)
        if start - rmin < 1e-3 * (1 + abs(start)):
            return None  # starts at or below the threshold
    rmin = cx.dt(rmin)
    args = dict(odes.lib_args(cx, mu, c["p"]), **{"rmin" if c["kind"] == "low" else "floor": rmin})
    info = dict(x0=x0.tolist(), mu=float(mu), p=c["p"], t1=float(t1), rmin=float(rmin), kind=c["kind"])
    ts = np.sort(np.minimum(cx.a([k * float(t1) for k in c["ts"]]), t1))
    dt = cx.dt(float(t1) / c["n"])
    return x0, mu, t1, ts, dt, rmin, args, info


@leg("C09", "stop")
def stop(cx):
    w = wrappers(cx)

    def check(cx, c):
        a = arrange(cx, c)
        if a is None:
            return False
        x0, mu, t1, ts, dt, rmin, args, info = a
        kind = c["kind"]
        eps = L(cx.eps)
        run = lambda n, e=kind: cx.call(w[n, e], x0, t1, ts, dt, args, what=n)
        early = {}
        steps = {}
        for n in ("adaptive", "fixed", "cowell", "cowell_dt"):
            o = run(n)
            tt, yy = finite(cx, o, n, info)
            g = value(kind, tt, yy, rmin)
            # the solver evaluates the event in its own precision and order of operations
            fuzz = 8 * eps * (L(abs(float(rmin))) + np.abs(yy[:, :3]).sum(1)) if kind != "late" else np.zeros(len(tt))
            cx.true(tt[0] == 0 and (np.diff(tt) > 0).all(), f"{n}: times increase from zero", ts=tt[:5].tolist(), **info)
            cx.true((g[:-1] > -fuzz[:-1]).all(), f"{n}: nothing is reported beyond the first step at which the event occurs", values=g[-4:].astype(float).tolist(), **info)
            if bool(o["ev"]):
                cx.true(g[-1] < fuzz[-1], f"{n}: an early stop happens only when the event occurs", value=float(g[-1]), t=float(tt[-1]), **info)
            else:
                cx.true(tt[-1] == t1, f"{n}: without the event the arc is finished", last=float(tt[-1]), **info)
                # (the event at the very last step may count as either)
                cx.true(g[-1] > -fuzz[-1] or tt[-1] == t1, f"{n}: no missed event", value=float(g[-1]), **info)
            early[n], steps[n] = bool(o["ev"]), (tt, yy, g, fuzz, int(o["n"]))
        # against the same propagation without an event
        for n in ("adaptive", "fixed"):
            o = run(n, "none")
            t2, y2 = finite(cx, o, n + " without event", info)
            cx.true(t2[-1] == t1, f"{n} without event: ends at the requested time", last=float(t2[-1]), **info)
            tt, yy, g, fuzz, _ = steps[n]
            g2 = value(kind, t2, y2, rmin)
            m = len(tt)
            if n == "fixed" or cx.x64:
                lim = 1e-5 if cx.x64 else 2e-2
                if np.abs(g2).min() > lim or kind == "late":
                    below = np.flatnonzero(g2 < 0)
                    want = int(below[0]) + 1 if len(below) else len(t2)
                    cx.true(m == want, f"{n}: stops at the first step at which the event occurs", reported=m, expected=want, of=len(t2), **info)
                k = min(m, len(t2))
                G = odes.growth(x0, mu, [float(tt[k - 1])])[0]
                tol = 1e5 * eps * G * (1 + np.abs(y2).max())
                if n == "fixed" or tol < 1e-3:
                    cx.close(tt[:k], t2[:k], np.full(k, 1e4 * float(eps) * float(t1) * (1 if n == "fixed" else float(G))), f"{n}: times are those without the event", **info)
                    if n == "adaptive":
                        cx.close(yy[:k], y2[:k], np.full((k, 6), tol), f"{n}: states are those without the event", **info)
        # the entry points that save something else follow the same integration
        tt, yy, g, fuzz, acc = steps["adaptive"]
        marginal = (np.abs(g) <= (1e-5 if cx.x64 else 2e-2)).any() and kind != "late"
        for n in ("final", "cowell_end"):
            o = run(n)
            tf, yf = finite(cx, o, n, info)
            cx.true(len(tf) == 1, f"{n}: one state", ts=tf.tolist(), **info)
            gf = value(kind, tf, yf, rmin)[0]
            if bool(o["ev"]):
                cx.true(gf < fuzz[-1], f"{n}: an early stop happens only when the event occurs", value=float(gf), **info)
            else:
                cx.true(tf[0] == t1, f"{n}: without the event the arc is finished", t=float(tf[0]), **info)
            if cx.x64 and not marginal:
                cx.true(bool(o["ev"]) == early["adaptive"], f"{n}: ends by the event when adaptive_steps does", **info)
                cx.close(tf[0], tt[-1], 1e-6 * (1 + float(t1)), f"{n}: stops at the same time as adaptive_steps", **info)
        o = run("custom")
        tc, yc = finite(cx, o, "custom_steps", info)
        cx.true(len(tc) <= 5 and np.array_equal(tc, ts[: len(tc)]), "custom_steps: reports requested times in order", got=tc.tolist(), want=ts.tolist(), **info)
        gc = value(kind, tc, yc, rmin)
        if not bool(o["ev"]):
            cx.true(len(tc) == 5, "custom_steps: without the event every requested time is reported", got=tc.tolist(), want=ts.tolist(), **info)
        if cx.x64 and not marginal:
            cx.true(bool(o["ev"]) == early["adaptive"], "custom_steps: ends by the event when adaptive_steps does", **info)
            end = tt[-1]
            inside = int((ts < end - 1e-6 * (1 + t1)).sum())
            outside = int((ts > end + 1e-6 * (1 + t1)).sum())
            cx.true(inside <= len(tc) <= 5 - outside, "custom_steps: reports the requested times up to the stop", got=tc.tolist(), want=ts.tolist(), stop=float(end), **info)
        # what is reported is still the true trajectory
        allt = np.concatenate([tt[-3:], tc])
        Y = np.concatenate([yy[-3:], yc])
        T = odes.truth(x0, mu, c["p"], allt, cx.dt)
        if T is not None:
            c08.accurate(cx, "with an event", allt, Y, T, odes.growth(x0, mu, allt), acc, L(1e-8), info)
        return early["adaptive"]

    return strategy(), check


@leg("C09", "several")
def several(cx):
    """Several events stop at the first of them."""
    w = wrappers(cx)

    def check(cx, c):
        c = dict(c, kind="low")
        a = arrange(cx, c)
        if a is None:
            return False
        x0, mu, t1, ts, dt, rmin, args, info = a
        o = cx.call(w["adaptive", "several"], x0, t1, ts, dt, args, what="adaptive_steps")
        tt, yy = finite(cx, o, "adaptive_steps with several events", info)
        kinds = ["low", "late"] + (["plane"] if x0[2] > rmin + 0.01 else [])
        if x0[2] <= rmin + 0.01:
            # this one starts beyond its threshold and may come back
            return True
        G = np.min([value(k, tt, yy, rmin) for k in kinds], axis=0)
        fz = 8 * L(cx.eps) * (L(abs(float(rmin))) + np.abs(yy[:, :3]).sum(1))
        cx.true((G[:-1] > -fz[:-1]).all(), "adaptive_steps with several events: stops at the first of them", values=G[-4:].astype(float).tolist(), **info)
        cx.true(G[-1] < fz[-1] if bool(o["ev"]) else tt[-1] == t1, "adaptive_steps with several events: stops only at one of them", value=float(G[-1]), **info)
        return bool(o["ev"])

    return strategy(), check


@leg("C09", "root", modes=("x64",))
def root(cx):
    """With a root finder or a direction in the event: stops at the crossing itself, in that direction."""
    import diffrax as dx
    import optimistix as ox
    import astrodynx.diffeq as dq

    prop, low = cx.adx.prop, cx.adx.events.radius_islow
    term = dq.ODETerm(odes.vector_field(cx))
    sav = dq.SaveAt
    entry = dict(
        adaptive=lambda o, x, t1, ts, dt: prop.adaptive_steps(o, x, t1),
        custom=lambda o, x, t1, ts, dt: prop.custom_steps(o, x, t1, ts),
        final=lambda o, x, t1, ts, dt: prop.to_final(o, x, t1),
        fixed=lambda o, x, t1, ts, dt: prop.fixed_steps(o, x, t1, dt),
        cowell=lambda o, x, t1, ts, dt: prop.cowell_method(o, x, t1, sav(t1=True)),
    )
    w = {}

    def run(n, find, d, *a):
        if (n, find, d) not in w:
            kw = dict(root_finder=ox.Bisection(1e-10, 1e-10, flip="detect") if find else None, direction=None if d == "any" else d == "up")
            ev = {} if d == "none" else dict(event=dq.Event(low, **kw))
            w[n, find, d] = cx.jax.jit(lambda x, t1, ts, dt, a: c08_out(entry[n](prop.OrbDynx(term, a, **ev), x, t1, ts, dt)))
        return cx.call(w[n, find, d], *a, what=n)

    def c08_out(s):
        return dict(ts=s.ts, ys=s.ys, n=s.stats["num_accepted_steps"], ok=s.result == dx.RESULTS.successful, ev=s.result == dx.RESULTS.event_occurred)

    def check(cx, c):
        a = arrange(cx, dict(c, kind="low"))
        if a is None:
            return False
        x0, mu, t1, ts, dt, rmin, args, info = a
        n, find, d = c["entry"], c["find"], c["dir"]
        info.update(root_finder=find, direction=d)
        step = "fixed" if n == "fixed" else "adaptive"
        t2, y2 = finite(cx, run(step, False, "none", x0, t1, ts, dt, args), step + " without event", info)
        g2 = value("low", t2, y2, rmin)
        if np.abs(g2).min() < 1e-5:
            return False
        cross = (g2[1:] > 0) & (g2[:-1] < 0) if d == "up" else (g2[1:] < 0) & (g2[:-1] > 0)
        k = int(np.flatnonzero(cross)[0]) + 1 if cross.any() else None
        o = run(n, find, d, x0, t1, ts, dt, args)
        tt, yy = finite(cx, o, n, info)
        cx.true(bool(o["ev"]) == (k is not None), f"{n}: ends by the event exactly if it occurs in its direction", values=g2.astype(float).tolist()[:40], **info)
        lo, hi = (t1, t1) if k is None else (t2[k - 1], t2[k]) if find else (t2[k], t2[k])
        slack = 1e-6 * (1 + float(t1))
        if n == "custom":
            inside, outside = int((ts < lo - slack).sum()), int((ts > hi + slack).sum())
            cx.true(np.array_equal(tt, ts[: len(tt)]) and inside <= len(tt) <= 5 - outside, "custom_steps: reports the requested times up to the crossing", got=tt.tolist(), want=ts.tolist(), stop=[float(lo), float(hi)], **info)
        else:
            cx.true(lo - slack <= tt[-1] <= hi + slack, f"{n}: stops in the step of the crossing", got=float(tt[-1]), step=[float(lo), float(hi)], **info)
            if k is not None and find:
                v = value("low", tt[-1:], yy[-1:], rmin)[0]
                cx.close(v, 0.0, 1e-8 * (1 + float(rmin)), f"{n}: stops where the radius equals the threshold", t=float(tt[-1]), **info)
        return k is not None

    strat = st.fixed_dictionaries(dict(
        orb=odes.orbit(), p=odes.force_params(), z=st.one_of(gen.f_(0.02, 0.98), gen.f_(-0.1, 1)), ts=st.lists(gen.f_(0, 1), min_size=5, max_size=5), n=gen.f_(30, 150),
        entry=st.sampled_from(list(entry)), find=st.sampled_from([True, True, False]), dir=st.sampled_from(["any", "down", "up", "up"]),
    ))
    return strat, check


@leg("C09", "value")
def event_value(cx):
    """radius_islow is the radius minus the threshold and nothing else."""
    low = cx.get("events.radius_islow")
    jl = cx.jit("events.radius_islow")
    strat = st.fixed_dictionaries(dict(
        x=st.lists(gen.f_(-1, 1), min_size=3, max_size=3), s=gen.logf(1e-3, 1e8 if cx.x64 else 1e5), v=st.lists(gen.f_(-10, 10), min_size=0, max_size=4),
        t=gen.f_(-1e4, 1e4), z=gen.f_(-0.1, 3), extra=gen.f_(-5, 5), form=st.sampled_from(["jit", "jit", "eager", "default", "kw"]), neg=st.booleans(),
    ))

    def check(cx, c):
        d = cx.dt
        x3 = cx.a(c["x"]) * d(c["s"])
        r = refs.norm(x3)
        if r < 1e-6:
            return False
        x = np.concatenate([x3, cx.a(c["v"])])
        rmin = d(float(r) * c["z"])
        args = dict(rmin=rmin, mu=d(c["extra"]), r_min=d(c["extra"]), R_eq=d(2.0), J2=d(0.1))
        keep = dict(args)
        t = d(c["t"])
        if c["form"] == "default":
            got, rmin = cx.call(low, t, x, what="radius_islow"), d(0)
        elif c["form"] == "kw":
            got = cx.call(low, t=t, x=x, args=args, terms=None, solver=None, rmin=d(c["extra"]), what="radius_islow")
        else:
            got = cx.call(low if c["form"] == "eager" else jl, t, x, args, what="radius_islow")
        cx.true(args == keep, "radius_islow leaves its parameters alone")
        cx.true(got.shape == () and got.dtype == d, "radius_islow: scalar of the session precision", shape=got.shape, dtype=str(got.dtype))
        info = dict(x=x.tolist(), rmin=float(rmin), t=float(t))
        cx.close(got, r - L(rmin), 8 * L(cx.eps) * (r + abs(L(rmin))), "radius_islow is the radius minus the threshold", **info)
        return True

    return strat, check


# ---- the event under every selection of the output, solver and direction ----------------------------
OUTPUTS = ("custom", "final", "steps", "both", "dense", "subs", "fixed", "cowell_fixed")


def output_wrapper(cx, solver, output, event):
    key = ("c09o", solver, output, event)
    if key in cx._jit:
        return cx._jit[key]
    import diffrax as dx
    import astrodynx.diffeq as dq

    prop, sav = cx.adx.prop, dq.SaveAt
    term = dq.ODETerm(odes.vector_field(cx))
    low = cx.adx.events.radius_islow
    ev = dict(none=None, low=dq.Event(low), tree=dq.Event({"floor": low, "never": lambda t, x, a, **kw: False}))[event]

    def run(x, t1, ts, dt, a, tol):
        o = prop.OrbDynx(term, a, ev)
        fx = dict(solver=getattr(dx, solver)()) if solver else {}
        kw = dict(fx, stepsize_controller=dq.PIDController(rtol=tol, atol=tol))
        if output == "adaptive":
            s = prop.adaptive_steps(o, x, t1, **kw)
        elif output == "custom":
            s = prop.custom_steps(o, x, t1, ts, **kw)
        elif output == "final":
            s = prop.to_final(o, x, t1, **kw)
        elif output == "fixed":
            s = prop.fixed_steps(o, x, t1, dt, **fx)
        elif output == "cowell_fixed":
            s = prop.cowell_method(o, x, t1, sav(t0=True, steps=True), dt, stepsize_controller=dq.ConstantStepSize(), **fx)
        else:
            at = dict(
                steps=lambda: sav(t0=True, steps=True), both=lambda: sav(t0=True, ts=ts, t1=True), dense=lambda: sav(dense=True, t1=True),
                subs=lambda: sav(subs=[dq.SubSaveAt(t0=True, t1=True), dq.SubSaveAt(ts=ts, fn=lambda t, y, a: y[:3])]),
            )[output]()
            s = prop.cowell_method(o, x, t1, at, **kw)
        first = (lambda q: q[0]) if output == "subs" else (lambda q: q)
        res = dict(ts=first(s.ts), ys=first(s.ys), ok=s.result == dx.RESULTS.successful, ev=s.result == dx.RESULTS.event_occurred, n=s.stats["num_accepted_steps"])
        if output == "subs":
            res.update(ts2=s.ts[1], ys2=s.ys[1])
        if output == "dense":
            res["at"] = cx.jax.vmap(s.evaluate)(ts)
        return res

    w = cx._jit[key] = cx.jax.jit(run)
    return w


@leg("C09", "outputs", modes=("x64",))
def outputs(cx):
    """Whatever output is selected, and with any solver and direction of time, the event ends the
    propagation at the same step, and what is reported up to there is what is reported without it."""

    def check(cx, c):
        a = arrange(cx, dict(c, kind="low"))
        if a is None:
            return False
        x0, mu, t1, ts, dt, rmin, args, info = a
        if c["back"]:
            # the arc run backwards: reverse the velocity, and with it the meaning of drag and of time
            if any(c["p"].get(k) for k in ("A", "c")):
                return False
            x0, t1, ts, dt = np.concatenate([x0[:3], -x0[3:]]), -t1, -ts, -dt
        out, solver = c["output"], c["solver"]
        if out in ("custom", "both", "subs"):
            ts = ts[-c["m"]:]
        tol = cx.dt(max(c["tol"], 1e-6 if solver == "Bosh3" else 0))
        info = dict(info, x0=x0.tolist(), t1=float(t1), requested=ts.tolist(), dt=float(dt), output=out, solver=solver, tol=float(tol))
        go = lambda o, e: cx.call(output_wrapper(cx, solver, o, e), x0, t1, ts, dt, args, tol, what=f"{o} ({solver or 'default solver'}, event {e})")
        o = go(out, c["event"])
        tt, yy = finite(cx, o, out, info)
        # the same steps, without the event
        base = go(out if "fixed" in out else "adaptive", "none")
        bt, by = finite(cx, base, out + " without event", info)
        g = value("low", bt, by, rmin)
        if np.abs(g).min() <= (1e-5 if cx.x64 else 2e-2):
            return False  # too close to call
        below = np.flatnonzero(g < 0)
        hit = len(below) > 0
        k = int(below[0]) if hit else len(bt) - 1
        stop = bt[k]
        near = 1e4 * float(cx.eps) * abs(float(t1)) * float(odes.growth(x0, mu, [float(stop)])[0]) * (len(bt) + 5)
        if near > 1e-3 * abs(float(t1)):
            return False
        late = hit and k == len(bt) - 1  # the event at the very last step may count as either
        cx.true(bool(o["ev"]) == hit or late, f"{out}: ends by the event exactly when a step ends below the threshold", steps=len(bt), first_below=k if hit else None, **info)
        sc = 1 + np.abs(by[: k + 1]).max()
        lim = near / (1e-30 + abs(float(t1))) * sc * max(1.0, abs(float(t1)))
        at = dict(final=[stop], dense=[stop], subs=[0, stop]).get(out)
        if out in ("steps", "fixed", "cowell_fixed"):
            cx.true(len(tt) == k + 1, f"{out}: stops at the first step below the threshold", reported=len(tt), expected=k + 1, **info)
            cx.close(tt, bt[: k + 1], near, f"{out}: the steps are those without the event", **info)
            cx.close(yy, by[: k + 1], lim, f"{out}: the states are those without the event", **info)
        elif at is not None:
            cx.true(len(tt) == len(at), f"{out}: number of states", ts=tt.tolist(), **info)
            cx.close(tt, cx.a(at), near, f"{out}: the last state is that at the stop", stop=float(stop), **info)
            cx.close(yy[-1], by[k], lim, f"{out}: the last state is that at the stop", stop=float(stop), **info)
        # requested times: those up to the stop, in order, and nothing after it
        asked = ts[np.abs(ts) < abs(stop) - near]
        doubt = int((np.abs(np.abs(ts) - abs(stop)) <= near).sum())
        got = None
        if out == "custom":
            got, gy = tt, yy[:, :3]
        elif out == "both":
            cx.true(len(tt) >= 2 and tt[0] == 0, "t0 and the stop are reported", ts=tt.tolist(), **info)
            cx.close(tt[-1], stop, near, "both: the last state is that at the stop", **info)
            got, gy = tt[1:-1], yy[1:-1, :3]
        elif out == "subs":
            fin = np.isfinite(o["ts2"])
            got, gy = o["ts2"][fin], o["ys2"][fin]
        elif out == "dense":
            got, gy = asked, o["at"][: len(asked), :3]
        if got is not None:
            cx.true(len(asked) <= len(got) <= len(asked) + doubt and np.array_equal(got, ts[: len(got)]), f"{out}: reports the requested times up to the stop", got=got.tolist(), stop=float(stop), **info)
            free = go("custom", "none")
            if len(got):
                cx.close(gy, free["ys"][: len(got), :3], lim * 4, f"{out}: the states are those without the event", **info)
        return hit

    sol = ["", "", "Dopri8", "Bosh3"] if cx.x64 else ["", "Dopri8"]
    strat = st.tuples(strategy(), st.fixed_dictionaries(dict(
        output=st.sampled_from(OUTPUTS), solver=st.sampled_from(sol), event=st.sampled_from(["low", "low", "low", "tree"]), back=st.booleans(), m=st.sampled_from([1, 5]), tol=gen.logf(1e-10 if cx.x64 else 1e-6, 1e-5),
    ))).map(lambda t: dict(t[0], **t[1]))
    return strat, check
