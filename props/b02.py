"""B02: a failing external srcML call is an error, never a wrong or stale result."""
from sim import core
from sim.core import digest, tree
from props import srcml as S
from props.outputs import cleanup_failed
from props.srcml import REAL, STUBS, FATES  # noqa: F401

LEVEL = "fault_enumeration"
RULE = ("sequences of backend calls with every fate of the external program (absent, unspawnable, error exit or kill before, in the middle of or after its effect, no output) and file faults, kills and interrupts anywhere in the exchange, sometimes next to a second process; "
        "directed runs enumerate every fate and every fault kind at each of the first operations; a call whose child failed must raise, one that returns must return what the in-process library does, no temporary file may stay, later calls are unaffected; non-trivial: a fault fired")
STATE_MEASURE = "digest of (operation log, outcomes) of one process"
STEP_MEANING = "calls of the backend"
BUDGET = {"quick": 34, "thorough": 600}
MUST_HIT = ["call-failed", "call-ok", "ok-after-failure", "killed"]
OPS = ["mkdir", "open_w", "write", "close", "open_r", "read", "unlink", "rmdir"]


def base(calls, fates, faults, **kw):
    return dict(jobs=[calls], procs=[dict(seed=1, faults=faults, fates=fates)], tmp="tmp", env=dict(bufsize=64), sched=1, mean=1, leftovers=[], **kw)


def directed(tier):
    out = []
    calls = [dict(op="parse", text="int first; // é\n" * 3, enc="utf-8", pos=True), dict(op="unparse", text="int second;", enc="utf-8", pos=True), dict(op="parse", text="int third;", enc="iso-8859-1", pos=False)]
    for fate in FATES:
        for k in range(3):
            out.append(base(calls, [dict(kind="ok")] * k + [fate], []))
    for op in OPS:
        for k in range(6 if tier == "quick" else 16):
            for kind in ("error", "partial", "short", "full", "dead", "interrupt", "crash_before", "crash_mid"):
                if kind in ("partial", "crash_mid") and op != "write" or kind == "short" and op not in ("read", "write"):
                    continue
                for e in range(1 if tier == "quick" else 3):
                    out.append(base(calls, [], [dict(kind=kind, op=op, k=k, e=e)]))
    return out


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    seed = rng.randint(0, 1 << 30)
    jobs, procs = [], []
    for t in range(n):
        calls = [S.gen_call(rng, f"t{t}c{k}") for k in range(rng.randint(1, 5))]
        jobs.append(calls)
        fates = [rng.choice(FATES) if rng.random() < 0.35 else dict(kind="ok") for _ in range(len(calls) * 2)]
        faults = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            f = dict(kind=rng.choice(["error", "error", "partial", "short", "full", "dead", "interrupt", "crash_before", "crash_after", "crash_mid"]), e=rng.randint(0, 4))
            if rng.random() < 0.6:
                f.update(op=rng.choice(OPS), k=rng.randint(0, 8))
            else:
                f["at"] = rng.randint(0, 30)
            faults.append(f)
        procs.append(dict(seed=seed, fates=fates, faults=faults))
    return dict(jobs=jobs, procs=procs, tmp=rng.choice(S.TMPS), env=dict(bufsize=rng.choice([8192, 64, 16])), sched=rng.randint(0, 1 << 30), mean=rng.choice([0, 1, 3]),
                leftovers=rng.sample(["input.h", "output.xml", "srcmlcpp_x/", "x.h", "x.xml"], rng.randint(0, 2)))


def run(plan, res):
    S.lay_out(plan)
    st, ref = core.life(S.life_reference, plan["jobs"])
    if st != "ok":
        res.violate("hang", f"in-process parsing did not end ({st})")
        return
    before = tree(".")
    outs, used = S.run_processes_plan(plan, res)
    plan["_schedule"] = used
    killed = excused = False
    for t, (st, r) in enumerate(outs):
        if st == "died":
            res.violate("hang", f"process {t} never ends or died ({r})")
            return
        if st == "crash":
            killed = True
            res.probes["killed"] += 1
        got = r.get("results", [])
        fired = r["fired"]
        res.faults.update(fired)
        if fired:
            res.nontrivial = True
        if r["escapes"]:
            res.violate("escape", f"{r['escapes'][:3]}")
        excused = excused or cleanup_failed(fired)
        res.states.add(digest((r["oplog"], [g if g[0] != "ok" else "ok" for g in got])))
        res.log.append((t, st, digest(used), tuple(sorted(fired.items())), digest([g if g[0] == "ok" else core.stable_name(g[1]) for g in got])))
        failed = False
        harmful_fs = any(not k.startswith(("short:", "child-")) for k in fired)
        bad_children = 0
        ncall = 0
        for k, g in enumerate(got):
            res.steps += 1
            w = ref[t][k]
            c = plan["jobs"][t][k]
            if c["op"] != "gen":
                # one child per call, in order, unless a file fault prevented it
                child = r["calls"][ncall] if ncall < len(r["calls"]) else None
            else:
                child = None
            if g[0] == "ok":
                res.probes["ok-after-failure" if failed else "call-ok"] += 1
                if g != w:
                    res.violate("wrong-result", f"process {t} call {k} {c['op']}: returned {str(g[1])[:200]}, in-process: {str(w)[:200]}; faults {fired}; calls {r['calls'][-3:]}")
                    return
                if c["op"] != "gen" and not harmful_fs and child is not None and child["fate"] not in ("ok",):
                    res.violate("failed-child-ignored", f"process {t} call {k}: returned a result although its child's fate was {child['fate']}")
                    return
                if failed:
                    res.probes["call-ok"] += 1
            else:
                failed = True
                res.probes["call-failed"] += 1
                if w[0] == "ok" and c["op"] != "gen" and not harmful_fs and child is not None and child["fate"] == "ok":
                    res.violate("spurious-failure", f"process {t} call {k}: {g[1]}, but its child succeeded and no file operation failed; faults {fired}")
                    return
            if c["op"] == "gen":
                # a generation calls the program as often as it likes: stop pairing calls and children
                break
            ncall += 1
        _ = bad_children
    after = tree(".")
    for p in before:
        if after.get(p) != before[p]:
            res.violate("file-changed", f"{p} was changed or removed by somebody who does not own it")
            break
    new = sorted(p for p in after if p not in before)
    if new and not killed and not excused:
        res.violate("litter", f"left behind: {[core.stable_name(x) for x in new][:5]}; faults {dict(res.faults)}")


def explicit(plan):
    import sys
    from sim.driver import run_plan

    p = dict(plan)
    run_plan(sys.modules[__name__], p)
    if "_schedule" not in p or len(p["_schedule"]) > 3000:
        return None
    q = {k: v for k, v in p.items() if k != "_schedule"}
    q["schedule"] = p["_schedule"]
    return q
