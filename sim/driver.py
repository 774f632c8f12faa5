"""Seeded search over plans, minimisation, replay, evidence."""
from __future__ import annotations
import argparse
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from sim import core
from sim.core import H, HarnessError, Result, VERIF, new_rng

NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
REPLAYS = os.path.join(VERIF, "replays")


def load_prop(pid: str):
    return importlib.import_module(f"props.{pid.lower()}")


def run_plan(mod, plan) -> Result:
    with core.Scratch():
        res = Result()
        mine = json.loads(json.dumps(plan))  # (a run may change its plan, that of the replay file is as it was)
        mod.run(mine, res)
        if "_schedule" in mine:
            plan["_schedule"] = mine["_schedule"]
        return res


def plan_for(mod, seed: int, pid: str, i: int, tier: str):
    directed = directed_plans(mod, tier)
    if i < len(directed):
        return directed[i], True
    rng = new_rng(seed, pid, i)
    return mod.gen(rng, tier), False


_directed_cache: dict = {}


def directed_plans(mod, tier):
    key = (mod.__name__, tier)
    if key not in _directed_cache:
        _directed_cache[key] = list(mod.directed(tier)) if hasattr(mod, "directed") else []
    return _directed_cache[key]


def pack(i, plan, res: Result, directed, twice) -> dict:
    return dict(i=i, plan=plan if (res.violations or i % 97 == 3 or i < 3) else None, violations=res.violations, faults=dict(res.faults),
                probes=dict(res.probes), states=res.states, digest=res.digest(), steps=res.steps, lives=res.lives,
                interleavings=res.interleavings, sim_time=res.sim_time, nontrivial=res.nontrivial, directed=directed,
                twice=twice, log=res.log[:60] if (res.violations or i < 3) else None)


def worker(mod, pid, seed, tier, w, nw, limit, deadline, fd) -> None:
    out = os.fdopen(fd, "wb", buffering=0)
    i = w
    while i < limit and core.real_monotonic() < deadline:
        try:
            plan, directed = plan_for(mod, seed, pid, i, tier)
            plan = json.loads(json.dumps(plan))
            res = run_plan(mod, plan)
            twice = None
            if i % 23 == 5:
                twice = run_plan(mod, plan).digest() == res.digest()
            msg = pack(i, plan, res, directed, twice)
        except HarnessError as e:
            msg = dict(i=i, harness=str(e), plan=plan)
        except Exception:
            msg = dict(i=i, harness=traceback.format_exc(), plan=None)
        data = pickle.dumps(msg)
        out.write(len(data).to_bytes(8, "big") + data)
        i += nw
    out.close()


def search(mod, pid, seed, tier, limit, budget, on_result):
    """Distributes run indices over worker processes; stops at the first violation"""
    deadline = core.real_monotonic() + budget
    procs = {}
    for w in range(NWORKERS):
        r, wfd = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                for k in list(procs):
                    os.close(k)
                worker(mod, pid, seed, tier, w, NWORKERS, limit, deadline, wfd)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wfd)
        try:
            os.setpgid(pid_, pid_)
        except OSError:
            pass
        procs[r] = [pid_, b""]
    stop = False
    hard = deadline + 420
    while procs and not stop:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        if core.real_monotonic() > hard:
            kill_all(procs)
            raise HarnessError("workers do not end")
        for r in ready:
            data = os.read(r, 1 << 20)
            if not data:
                os.waitpid(procs[r][0], 0)
                os.close(r)
                del procs[r]
                continue
            procs[r][1] += data
            buf = procs[r][1]
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], "big")
                if len(buf) < 8 + n:
                    break
                msg = pickle.loads(buf[8 : 8 + n])
                buf = buf[8 + n :]
                if on_result(msg):
                    stop = True
            procs[r][1] = buf
    kill_all(procs)


def kill_all(procs) -> None:
    for r, (p, _) in list(procs.items()):
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
        os.close(r)
    for r, (p, _) in list(procs.items()):
        import shutil

        shutil.rmtree(os.path.join(core.scratch_base(), f"verif-sim-{os.environ.get('VERIF_RUN_TAG', '')}{p}"), ignore_errors=True)
    procs.clear()


# ------------------------------------------------------------------ minimisation
def shrink_candidates(x, path=()):
    """Generic shrinker over JSON plans: drop list elements (chunks first), shorten strings, lower integers"""
    if isinstance(x, list):
        n = len(x)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                if size < n or n >= 1:
                    yield path, x[:a] + x[a + size :]
            size //= 2
        for i, v in enumerate(x):
            yield from shrink_candidates(v, path + (i,))
    elif isinstance(x, dict):
        for k, v in x.items():
            if not k.startswith("_"):
                yield from shrink_candidates(v, path + (k,))
    elif isinstance(x, bool):
        if x:
            yield path, False
    elif isinstance(x, int):
        for c in (0, x // 2, x - 1):
            if c != x and c >= 0:
                yield path, c
    elif isinstance(x, str) and len(x) > 12:
        lines = x.split("\n")
        if len(lines) > 1:
            for i in range(len(lines)):
                yield path, "\n".join(lines[:i] + lines[i + 1 :])


def replace_at(x, path, v):
    if not path:
        return v
    if isinstance(x, list):
        return [replace_at(e, path[1:], v) if i == path[0] else e for i, e in enumerate(x)]
    return {k: (replace_at(e, path[1:], v) if k == path[0] else e) for k, e in x.items()}


def minimise(mod, plan, cls, budget):
    deadline = core.real_monotonic() + budget
    tried = 0
    improved = True
    cands = getattr(mod, "shrink", None)

    def fails(p):
        nonlocal tried
        tried += 1
        try:
            res = run_plan(mod, json.loads(json.dumps(p)))
        except HarnessError:
            return False
        except Exception:
            return False
        return any(v["cls"] == cls for v in res.violations)

    if hasattr(mod, "explicit"):
        try:
            p = mod.explicit(plan)
            if p is not None and fails(p):
                plan = p
        except Exception:
            pass
    for key in getattr(mod, "SHRINK_KEYS", []):
        # (one part of the plan after the other; a schedule is only cut, its entries are left alone)
        flat = key == "schedule"
        again = plan.get(key) is not None
        while again and core.real_monotonic() < deadline:
            again = False
            for path, v in shrink_candidates(plan[key]):
                if core.real_monotonic() > deadline or (flat and path):
                    break
                p = dict(plan)
                p[key] = replace_at(plan[key], path, v)
                if fails(p):
                    plan, again = p, True
                    break
    if hasattr(mod, "SHRINK_KEYS"):
        return plan, tried
    while improved and core.real_monotonic() < deadline:
        improved = False
        gens = [cands(plan)] if cands else []
        for p in (q for g in gens for q in g):
            if core.real_monotonic() > deadline:
                break
            if fails(p):
                plan, improved = p, True
                break
        if improved:
            continue
        for path, v in shrink_candidates(plan):
            if core.real_monotonic() > deadline:
                break
            p = replace_at(plan, path, v)
            if fails(p):
                plan, improved = p, True
                break
    return plan, tried


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == pid]


def is_known(v, known):
    for k in known:
        if v["cls"] == k["cls"] and v.get("sig") == k["sig"]:
            return k
    return None


# ------------------------------------------------------------------ check
def do_check(pid: str, tier: str, seed: int) -> int:
    t0 = core.real_monotonic()
    core.load_repo()
    mod = load_prop(pid)
    known = known_findings(pid)
    seen_known: dict = {}
    stats = dict(runs=0, directed=0, steps=0, lives=0, inter=0, simt=0.0, twice=0, mismatch=0, nontrivial=0)
    faults: Counter = Counter()
    probes: Counter = Counter()
    states: set = set()
    digests: set = set()
    samples: list = []
    harness: list = []
    bad: list = []

    def on_result(msg):
        if "harness" in msg:
            harness.append(msg)
            return len(harness) >= 3
        stats["runs"] += 1
        stats["directed"] += bool(msg["directed"])
        stats["steps"] += msg["steps"]
        stats["lives"] += msg["lives"]
        stats["inter"] += msg["interleavings"]
        stats["simt"] += msg["sim_time"]
        if msg["twice"] is not None:
            stats["twice"] += 1
            stats["mismatch"] += not msg["twice"]
        faults.update(msg["faults"])
        probes.update(msg["probes"])
        states.update(msg["states"])
        if msg["nontrivial"] and msg["digest"] not in digests:
            stats["nontrivial"] += 1
        digests.add(msg["digest"])
        if msg["plan"] is not None and len(samples) < 3 and not msg["violations"]:
            samples.append(dict(run=msg["i"], plan=clip(msg["plan"]), log=clip(msg["log"])))
        new = []
        for v in msg["violations"]:
            k = is_known(v, known)
            if k:
                seen_known[k["sig"]] = k
            else:
                new.append(v)
        if new:
            bad.append((msg["i"], msg["plan"], new[0]))
            return True
        return False

    budget = mod.BUDGET[tier] if hasattr(mod, "BUDGET") else {"quick": 30, "thorough": 600}[tier]
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    limit = int(os.environ.get("VERIF_LIMIT", mod.LIMIT[tier] if hasattr(mod, "LIMIT") else 10**9))
    search(mod, pid, seed, tier, limit, budget, on_result)
    searched = core.real_monotonic() - t0

    replay = None
    if bad:
        bad.sort(key=lambda b: b[0])
        i, plan, v = bad[0]
        print(f"violation of {pid} in run {i} (seed {seed}): [{v['cls']}] {v['msg']}", flush=True)
        small, tried = minimise(mod, plan, v["cls"], {"quick": 60, "thorough": 180}[tier])
        os.makedirs(REPLAYS, exist_ok=True)
        ok = False
        for p, tag in ((small, ""), (plan, "-full")):
            res = run_plan(mod, json.loads(json.dumps(p)))
            vv = next((x for x in res.violations if x["cls"] == v["cls"]), None)
            if vv is None:
                continue
            replay = os.path.join(REPLAYS, f"{pid}-seed{seed}-run{i}{tag}.json")
            with open(replay, "w", encoding="utf-8") as f:
                json.dump(dict(property=pid, seed=seed, run=i, violation=vv, minimised=(tag == ""), minimisation_runs=tried,
                               plan=p, faults=dict(res.faults), log=res.log, digest=res.digest()), f, indent=1, default=repr)
            env = dict(os.environ)
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", replay], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            if r.returncode == 1:
                ok = True
                break
            print(f"replay in a fresh process ended with {r.returncode}:\n{r.stdout[-1500:]}")
        if not ok:
            harness.append(dict(harness=f"run {i} reported [{v['cls']}] {v['msg']} but it did not reproduce", i=i))
            bad = []
    write_evidence(mod, pid, tier, seed, stats, faults, probes, states, digests, samples, len(bad), core.real_monotonic() - t0, searched)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier}: {stats['runs']} runs ({stats['directed']} directed), {stats['lives']} process lives, "
          f"{sum(faults.values())} faults fired of {len(faults)} kinds, {len(states)} states, {searched:.1f} s", flush=True)
    if bad:
        print(f"[{bad[0][2]['cls']}] {bad[0][2]['msg']}")
        print(f"VIOLATION property={pid} replay={replay}", flush=True)
        return 1
    if harness:
        for h in harness[:3]:
            print(f"HARNESS ERROR in run {h['i']}: {h['harness']}", file=sys.stderr)
        return 2
    missing = [p for p in getattr(mod, "MUST_HIT", []) if not probes.get(p)]
    if missing and stats["runs"] >= getattr(mod, "MUST_HIT_RUNS", 400):
        print(f"HARNESS ERROR: probes never hit: {missing}", file=sys.stderr)
        return 2
    if stats["runs"] == 0:
        print("HARNESS ERROR: nothing ran", file=sys.stderr)
        return 2
    return 0


def clip(x, n=600):
    s = json.dumps(x, default=repr, ensure_ascii=False)
    return json.loads(s) if len(s) <= n else s[:n] + "..."


def write_evidence(mod, pid, tier, seed, stats, faults, probes, states, digests, samples, nbad, wall, searched) -> None:
    runs = stats["runs"]
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=stats["nontrivial"],
        rule=mod.RULE,
        samples=samples or ["(none)"],
        directed_runs=stats["directed"],
        seeds_per_hour=int(runs / max(searched, 0.001) * 3600),
        process_lives=stats["lives"],
        steps=stats["steps"],
        step_meaning=getattr(mod, "STEP_MEANING", "operations performed by the simulated processes"),
        faults_fired=dict(sorted(faults.items())),
        fault_kinds_fired=len(faults),
        probes=dict(sorted(probes.items())),
        distinct_states=len(states),
        state_measure=getattr(mod, "STATE_MEASURE", "digest of the operation log and outcome of a run"),
        distinct_event_logs=len(digests),
        replayed_twice=stats["twice"],
        replay_mismatches=stats["mismatch"],
        real_components=mod.REAL,
        stubbed_components=mod.STUBS,
    )
    if stats["inter"]:
        cov["thread_switches"] = stats["inter"]
    if stats["simt"]:
        cov["simulated_seconds"] = round(stats["simt"], 3)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=nbad)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))


def do_replay(path: str) -> int:
    core.load_repo()
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    mod = load_prop(data["property"])
    res = run_plan(mod, data["plan"])
    same = [v for v in res.violations if v["cls"] == data["violation"]["cls"]]
    for e in res.log:
        print("  ", e)
    for v in res.violations:
        print(f"[{v['cls']}] {v['msg']}")
    if same:
        print(f"identical event log: {res.digest() == data['digest']}")
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def do_selftest(pid: str, runs: int, seed: int) -> int:
    """Prints one digest per run; the caller diffs the output of several processes"""
    core.load_repo()
    mod = load_prop(pid)
    for i in range(runs):
        plan, _ = plan_for(mod, seed, pid, i + int(os.environ.get("VERIF_FIRST", "0")), "quick")
        res = run_plan(mod, json.loads(json.dumps(plan)))
        print(i, res.digest(), len(res.violations), flush=True)
    return 0


def do_setup() -> int:
    """Nothing to build: only checks that what the simulator needs is there"""
    import black  # noqa
    import srcml_caller  # noqa

    core.load_repo()
    print("ready:", core.SRC)
    return 0


def do_one(pid: str, i: int, seed: int, tier: str) -> int:
    core.load_repo()
    mod = load_prop(pid)
    plan, _ = plan_for(mod, seed, pid, i, tier)
    print(json.dumps(plan, indent=1, ensure_ascii=False))
    res = run_plan(mod, json.loads(json.dumps(plan)))
    for e in res.log:
        print("  ", e)
    print(res.faults, res.probes)
    for v in res.violations:
        print(f"[{v['cls']}] {v['msg']}")
    return 0


def main(argv) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--selftest")
    ap.add_argument("--runs", type=int, default=40)
    ap.add_argument("--one", type=int)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--server", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if a.setup:
            return do_setup()
        if a.server:
            from sim import interp

            return interp.serve()
        if a.replay:
            return do_replay(a.replay)
        if a.selftest:
            return do_selftest(a.selftest, a.runs, seed)
        if a.one is not None:
            return do_one(a.property, a.one, seed, a.tier)
        return do_check(a.property, a.tier, seed)
    except HarnessError as e:
        print(f"HARNESS ERROR: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


_ = (H, time)
