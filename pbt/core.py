"""Worker side of the harness: runs one leg (generator + oracle) of one property.

A leg is a pair (strategy, check).  The strategy yields JSON-serialisable cases; check(cx, case)
raises Violation, or returns a truthy value if the case was non-trivial.  All calls into the code
under test go through cx.call(), so that an exception raised by that code counts as a violation
while an exception of the harness itself is reported as a harness error.
"""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import faulthandler
import hashlib
import importlib
import json
import tempfile
import time
import traceback
import types
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


if VT not in sys.path:
    sys.path.append(VT)  # hypothesis; /opt/venv keeps precedence


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


LEGS = {}


def leg(pid, name, modes=("x64", "f32")):
    """Register a leg; the decorated function returns (strategy, check) given a Ctx."""

    def deco(fn):
        LEGS[(pid, name)] = (fn, modes)
        return fn

    return deco


class Ctx:
    def __init__(self, mode):
        self.mode = mode
        self.x64 = mode == "x64"
        import jax

        jax.config.update("jax_enable_x64", self.x64)
        import jax.numpy as jnp
        import numpy as np

        self.jax, self.jnp, self.np = jax, jnp, np
        self.dt = np.float64 if self.x64 else np.float32
        self.eps = float(np.finfo(self.dt).eps)
        self.adx = load_astrodynx()
        self._jit = {}
        self.ratio = 0.0  # largest error/tolerance seen, for the evidence

    def a(self, x):
        """The case value as an array of the session dtype."""
        return self.np.asarray(x, dtype=self.dt)

    def get(self, name):
        """Public function by dotted name below astrodynx."""
        o = self.adx
        for part in name.split("."):
            o = getattr(o, part)
        return o

    def jit(self, name):
        if name not in self._jit:
            self._jit[name] = self.jax.jit(self.get(name))
        return self._jit[name]

    def call(self, f, /, *args, what=None, **kw):
        """Call code under test; results come back as float arrays (pytrees kept)."""
        try:
            out = f(*args, **kw)
            return self.jax.tree_util.tree_map(self.np.asarray, out)
        except Exception as e:
            name = what or getattr(f, "__name__", str(f))
            tb = traceback.format_exc(limit=-3)
            raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:300]}\n{tb[-600:]}")

    def fn(self, name, eager=False):
        return self.get(name) if eager else self.jit(name)

    def close(self, got, want, tol, what, /, **info):
        """Componentwise |got - want| <= tol (broadcast), with NaN never accepted."""
        np = self.np
        got = np.asarray(got)
        if got.dtype.kind not in "fiub":
            raise Violation(f"{what}: unexpected dtype {got.dtype}")
        got = got.astype(np.longdouble)
        want = np.asarray(want, dtype=np.longdouble)
        if got.shape != want.shape:
            raise Violation(f"{what}: shape {got.shape}, expected {want.shape} {info}")
        # XLA flushes subnormal numbers to zero
        tol = np.asarray(tol, dtype=np.longdouble) + 64 * np.longdouble(np.finfo(self.dt).tiny)
        tol = np.broadcast_to(tol, want.shape)
        err = np.abs(got - want)
        ok = err <= tol
        if not ok.all():
            i = np.unravel_index(int(np.argmax(~ok)), want.shape) if want.shape else ()
            raise Violation(
                f"{what}: got {float(got[i])!r}, expected {float(want[i])!r} "
                f"+- {float(tol[i]):.3g} at index {tuple(int(k) for k in i)}; {info}"
            )
        with np.errstate(all="ignore"):
            q = np.max(np.where(tol > 0, err / np.where(tol > 0, tol, 1), 0), initial=0)
        self.ratio = max(self.ratio, float(q))

    def true(self, cond, what, /, **info):
        if not bool(cond):
            raise Violation(f"{what}; {info}")


def load_astrodynx():
    """Import astrodynx from REPO/src without reading or leaving bytecode there."""
    import jax  # noqa: F401  (their bytecode may be cached as usual)
    import diffrax  # noqa: F401
    import scipy.integrate  # noqa: F401

    if "astrodynx" in sys.modules:
        return sys.modules["astrodynx"]
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    old = sys.pycache_prefix
    # An empty prefix directory: stale .pyc files under /repo are never consulted.
    with tempfile.TemporaryDirectory(prefix="vpyc") as d:
        sys.pycache_prefix = d
        try:
            if not os.path.exists(os.path.join(src, "astrodynx", "_version.py")):
                m = types.ModuleType("astrodynx._version")
                m.version = m.__version__ = "0.0.0"
                m.version_tuple = m.__version_tuple__ = (0, 0, 0)
                sys.modules["astrodynx._version"] = m
            import astrodynx
            import astrodynx.diffeq  # noqa: F401
        finally:
            sys.pycache_prefix = old
    if not os.path.realpath(astrodynx.__file__).startswith(os.path.realpath(src)):
        raise HarnessError(f"astrodynx imported from {astrodynx.__file__}, not {src}")
    return astrodynx


def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()


def load_module(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def run_case(cx, check, case):
    """Returns (nontrivial, None) or (False, message)."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return bool(check(cx, case)), None
    except Violation as v:
        return False, str(v)


def worker(pid, name, mode, shard, n, seed, budget, out):
    """Generate up to n cases; write a result JSON to out."""
    t0 = time.time()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    load_module(pid)
    cx = Ctx(mode)
    make, _ = LEGS[(pid, name)]
    strategy, check = make(cx)

    st = dict(evaluations=0, nontrivial=0, skipped=0)
    seen = set()
    samples = []
    fails = []  # (size, case, message), newest last
    first_fail = [None]
    past = []  # every case run so far, in order
    first_past = [None]
    cur = out + ".cur"

    def result(error=None):
        best = min(fails, key=lambda f: f[0]) if fails else None
        r = dict(
            leg=name, mode=mode, shard=shard, evaluations=st["evaluations"],
            nontrivial=st["nontrivial"], skipped=st["skipped"], distinct=len(seen),
            keys=[k.hex() for k in seen] if len(seen) < 200000 else [],
            samples=samples, max_ratio=cx.ratio, wall=time.time() - t0, error=error,
            failure=dict(case=best[1], message=best[2]) if best else None,
            # in case the failure depends on what ran before it: the first failing case and its predecessors
            first=dict(case=fails[0][1], message=fails[0][2], past=[json.loads(b) for b in first_past[0]]) if best else None,
        )
        with open(out + ".tmp", "w") as f:
            json.dump(r, f)
        os.replace(out + ".tmp", out)

    fd = os.open(cur, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)

    def body(case):
        now = time.time()
        if first_fail[0] and now - first_fail[0] > 25:
            result()  # shrinking budget spent: keep the smallest failure so far
            os._exit(0)
        if now - t0 > budget and not first_fail[0]:
            st["skipped"] += 1
            return
        blob = json.dumps(case).encode()
        os.pwrite(fd, blob, 0)
        os.ftruncate(fd, len(blob))
        nt, msg = run_case(cx, check, case)
        st["evaluations"] += 1
        if msg is not None:
            if not first_fail[0]:
                first_fail[0] = time.time()
                first_past[0] = list(past)
            fails.append((len(blob), case, msg))
            raise Violation(msg)
        past.append(blob)
        if nt:
            st["nontrivial"] += 1
            seen.add(case_key(case))
            if st["nontrivial"] in (1, 10, 100, 1000):
                samples.append(case)

    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )(given(strategy)(body))
    test = hypothesis.seed(seed)(test)
    try:
        test()
        result()
    except Violation:
        result()
    except BaseException as e:
        if fails:
            result()
        else:
            result(error=f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}")


def replay(path):
    """Re-run one saved case without hypothesis.  Exit 1 if it still fails."""
    rec = json.load(open(path))
    load_module(rec["property"])
    cx = Ctx(rec["mode"])
    make, _ = LEGS[(rec["property"], rec["leg"])]
    _, check = make(cx)
    if rec.get("limit"):
        # prints where it hangs, then ends the process
        faulthandler.dump_traceback_later(int(rec["limit"]), exit=True, file=sys.stdout)
    for c in rec.get("past", []):
        run_case(cx, check, c)
    nt, msg = run_case(cx, check, rec["case"])
    faulthandler.cancel_dump_traceback_later()
    if msg is None:
        print("REPLAY: the property holds on this case")
        return 0
    print("REPLAY: violated:", msg)
    return 1


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["core"] = sys.modules["__main__"]
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    pid, name, mode, shard, n, seed, budget, out = sys.argv[1:]
    worker(pid, name, mode, int(shard), int(n), int(seed), float(budget), out)
