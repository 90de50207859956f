#!/usr/bin/env python3
"""Check one property: run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything generated.  Exit 1: a VIOLATION line names a replay file.
Exit 2: the harness itself failed (no verdict).
"""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from plan import PLAN, ASSUMPTIONS, RULES  # noqa: E402

STALL = 90  # a single case normally takes milliseconds (seconds when it compiles)


def env():
    e = dict(os.environ)
    e.update(
        JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    )
    for k in ("JAX_ENABLE_X64", "JAX_DEBUG_NANS", "JAX_DISABLE_JIT", "PYTHONPATH"):
        e.pop(k, None)
    return e


def run_replay(path, timeout=None):
    p = subprocess.Popen([PY, os.path.join(HERE, "core.py"), "--replay", path], env=env(),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "timeout"


def save_replay(pid, r, case, message, limit=None, past=None):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps([r["leg"], r["mode"], case]).encode(), digest_size=4).hexdigest()
    path = os.path.join(d, f"{pid}-{r['leg']}-{r['mode']}-{h}.json")
    rec = dict(property=pid, leg=r["leg"], mode=r["mode"], case=case, message=message,
               how=f"{PY} {HERE}/core.py --replay {path}")
    if limit:
        rec["limit"] = limit
    if past:
        rec["past"] = past
    json.dump(rec, open(path, "w"), indent=1)
    return path


def with_history(pid, r, deadline):
    """A failure that needs earlier calls: the first failing case after as few of its predecessors as reproduce it."""
    f = r["first"]
    past, n, best = f["past"], 1, None

    def fails(p):
        left = deadline - time.time()
        if left < 5:
            return None
        path = save_replay(pid, r, f["case"], f["message"], past=p)
        return path if run_replay(path, left)[0] == 1 else None

    while best is None and past and time.time() < deadline - 5:
        best = past[-n:] if fails(past[-n:]) else None
        if n >= len(past):
            break
        n = n * 4 if n < 256 else len(past)
    if best is None:
        return None, f
    size = max(1, len(best) // 2)
    stop = time.time() + min(60, 0.5 * (deadline - time.time()))
    while time.time() < stop:  # drop what is not needed
        for i in range(0, len(best), size):
            p = best[:i] + best[i + size:]
            if time.time() < stop and len(p) < len(best) and fails(p):
                best = p
                break
        else:
            if size == 1:
                break
            size //= 2
    return save_replay(pid, r, f["case"], f["message"], past=best), f


def known_findings(pid):
    """Open findings (case-specific) for this property: list of dicts with leg/mode/case."""
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if not os.path.exists(p):
        return []
    rows = [json.loads(x) for x in open(p) if x.strip()]
    return [r for r in rows if r.get("property") == pid and r.get("status") == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--legs", help="comma-separated subset (for development)")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    if a.replay:
        rc, o = run_replay(a.replay)
        print(o)
        sys.exit(rc)
    pid, t0 = a.property, time.time()
    thorough = a.tier == "thorough"
    budget = 700.0 if thorough else 150.0
    hard = 780.0 if thorough else 420.0
    tmp = tempfile.mkdtemp(prefix=f"pbt-{pid}-")
    jobs = []
    for L in PLAN[pid]:
        if a.legs and L["leg"] not in a.legs.split(","):
            continue
        for mode, n in L["modes"].items():
            # a thorough run repeats the leg in more shards, each with its own seed
            shards = L.get("shards", 1) * (4 if thorough else 1)
            per = max(1, n // L.get("shards", 1)) * (3 if thorough else 1)
            for s in range(shards):
                jobs.append(dict(leg=L["leg"], mode=mode, shard=s, n=per))
    # interleave so that the heavy legs start first
    jobs.sort(key=lambda j: -j["n"] * next(x.get("cost", 1) for x in PLAN[pid] if x["leg"] == j["leg"]))
    running, results, errors, stalls = [], [], [], []
    queue = list(enumerate(jobs))
    stop = False
    deferred = 0
    while queue or running:
        while queue and len(running) < a.jobs and not stop:
            left = hard - 60 - (time.time() - t0)
            if left < 20:
                deferred += len(queue)
                queue = []
                break
            i, j = queue.pop(0)
            out = os.path.join(tmp, f"r{i}.json")
            seed = int.from_bytes(hashlib.blake2b(
                f"{a.seed}/{pid}/{j['leg']}/{j['mode']}/{j['shard']}".encode(), digest_size=4).digest(), "big")
            p = subprocess.Popen(
                [PY, os.path.join(HERE, "core.py"), pid, j["leg"], j["mode"], str(j["shard"]), str(j["n"]),
                 str(seed), str(min(budget, left)), out],
                env=env(), cwd=tmp, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), start_new_session=True)
            running.append(dict(j, p=p, out=out, seed=seed, start=time.time(), last=None, changed=time.time()))
        time.sleep(0.05)
        for w in list(running):
            if w["p"].poll() is not None:
                running.remove(w)
                if os.path.exists(w["out"]):
                    r = json.load(open(w["out"]))
                    results.append(r)
                    if r["error"]:
                        errors.append((w["leg"], w["mode"], r["error"]))
                    if r["failure"]:
                        stop = True
                else:
                    errors.append((w["leg"], w["mode"], "worker died: " + open(w["out"] + ".err").read()[-2000:]))
                continue
            cur = w["out"] + ".cur"
            try:
                sig = os.stat(cur).st_mtime_ns
            except OSError:
                sig = None
            if sig != w["last"]:
                w["last"], w["changed"] = sig, time.time()
            elif sig is not None and time.time() - w["changed"] > STALL:
                case = open(cur).read()
                os.killpg(w["p"].pid, 9)
                w["p"].wait()
                running.remove(w)
                stalls.append((w, case))
            elif stop and time.time() - t0 > hard - 100:
                pass
        if stop:
            queue = []
            # a failure was found: let the others go unless they are about to shrink their own
            for w in list(running):
                os.killpg(w["p"].pid, 9)
                w["p"].wait()
                running.remove(w)
        if time.time() - t0 > hard:
            for w in running:
                os.killpg(w["p"].pid, 9)
                w["p"].wait()
                deferred += 1
            running, queue = [], []

    violations, lines = [], []
    known = known_findings(pid)
    for r in results:
        f = r["failure"]
        if not f:
            continue
        path = save_replay(pid, r, f["case"], f["message"])
        rc, o = run_replay(path, 240)
        if rc == 0:
            late, first = with_history(pid, r, t0 + 840 if not thorough else time.time() + 300)
            if late:
                path, rc, f = late, 1, dict(first, message=first["message"] + " (after the earlier calls in the replay file)")
        if rc == 1:
            if any(k["leg"] == r["leg"] and k["case"] == f["case"] for k in known):
                continue
            violations.append(dict(leg=r["leg"], mode=r["mode"], case=f["case"], message=f["message"][:2000], replay=path))
            lines.append(f"VIOLATION property={pid} replay={path}")
            print(f"[{r['leg']}/{r['mode']}] {f['message'][:1500]}")
        elif rc == 0:
            print(f"note: a failure of {r['leg']}/{r['mode']} did not reproduce in a fresh process: {f['message'][:500]}")
            errors.append((r["leg"], r["mode"], "failure not reproducible: " + f["message"][:500]))
        else:
            errors.append((r["leg"], r["mode"], "replay failed: " + (o or "")[-1500:]))
    for w, case in stalls:
        # A call that does not return.  Only believed if it again does not return, alone, in a fresh process.
        try:
            case = json.loads(case)
        except ValueError:
            continue
        msg = f"call did not return within {STALL} s (twice)"
        path = save_replay(pid, w, case, msg, limit=STALL)
        rc, o = run_replay(path, STALL + 60)
        hangs = "Timeout (" in o
        if hangs and not any(k in o for k in ("/jax/", "/astrodynx/", "/equinox/", "/diffrax/")):
            print(f"note: the reference model did not return on a case of {w['leg']}/{w['mode']}")
        elif hangs:
            violations.append(dict(leg=w["leg"], mode=w["mode"], case=case, message=msg, replay=path))
            lines.append(f"VIOLATION property={pid} replay={path}")
            print(f"[{w['leg']}/{w['mode']}] {msg}")
        elif rc == 1:
            violations.append(dict(leg=w["leg"], mode=w["mode"], case=case, message=o[-1500:], replay=path))
            lines.append(f"VIOLATION property={pid} replay={path}")
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    keys = set()
    extra = 0
    legs = {}
    for r in results:
        if r["keys"]:
            keys.update((r["leg"], r["mode"], k) for k in r["keys"])
        else:
            extra += r["distinct"]
        s = legs.setdefault(f"{r['leg']}/{r['mode']}", dict(evaluations=0, nontrivial=0, skipped_by_budget=0,
                                                            max_error_over_tolerance=0.0, wall_s=0.0))
        s["evaluations"] += r["evaluations"]
        s["nontrivial"] += r["nontrivial"]
        s["skipped_by_budget"] += r["skipped"]
        s["max_error_over_tolerance"] = round(max(s["max_error_over_tolerance"], r["max_ratio"]), 4)
        s["wall_s"] = round(s["wall_s"] + r["wall"], 1)
    samples = []
    for r in results:
        for c in r["samples"][:2]:
            samples.append(dict(leg=r["leg"], mode=r["mode"], case=c))
    ev = dict(
        property=pid, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=len(keys) + extra,
            rule=RULES[pid], samples=samples[:24], legs=legs,
            stalled_calls=len(stalls), jobs_not_run=deferred, violation_details=violations,
        ),
        wall_s=round(time.time() - t0, 1), violations=len(violations), assumptions=ASSUMPTIONS[pid],
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print(f"{pid}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{ev['wall_s']} s, {len(violations)} violation(s)")
    for k, s in sorted(legs.items()):
        print(f"  {k}: {s}")
    if lines:
        for x in lines[:5]:
            print(x)
        sys.exit(1)
    if errors:
        for e in errors:
            print("HARNESS ERROR:", *e, file=sys.stderr)
        sys.exit(2)
    if not ev["coverage"]["evaluations"]:
        print("HARNESS ERROR: nothing evaluated", file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
