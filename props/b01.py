"""B01: the external srcML process backend equals the in-process one, even concurrently."""
from sim import core
from sim.core import digest, tree
from props import srcml as S
from props.srcml import REAL, STUBS  # noqa: F401

RULE = ("two to four callers of the external program, in threads of one process (switching at source lines, file operations and child process steps) or in real processes with the same random seed (switching at file operations and child process steps), over texts, encodings, temporary directories with odd names and leftovers of others; "
        "every result is compared with the in-process library; non-trivial: control changed hands at least twice")
STATE_MEASURE = "digest of the schedule of a run"
STEP_MEANING = "calls of the backend"
BUDGET = {"quick": 34, "thorough": 600}
SHRINK_KEYS = ["schedule", "jobs", "schedule", "opts", "leftovers"]
MUST_HIT = ["threads", "processes", "parse", "unparse", "gen"]


def gen(rng, tier):
    n = rng.randint(1, 4)
    mode = rng.choice(["threads", "processes"])
    jobs = []
    same = S.gen_call(rng, "same")
    for t in range(n):
        jobs.append([S.gen_call(rng, f"t{t}c{k}") if rng.random() < 0.8 else dict(same) for k in range(rng.randint(1, 3))])
    seed = rng.randint(0, 1 << 30)
    procs = [dict(seed=seed if rng.random() < 0.8 else rng.randint(0, 1 << 30), faults=short_reads(rng)) for _ in range(n)]
    env = dict(bufsize=rng.choice([8192, 64, 16]), seed=seed)
    if mode == "threads":
        env["faults"] = short_reads(rng)
    return dict(mode=mode, jobs=jobs, tmp=rng.choice(S.TMPS), env=env, procs=procs, sched=rng.randint(0, 1 << 30), mean=rng.choice([1, 3, 10, 40, 200] if mode == "threads" else [0, 1, 3]),
                leftovers=rng.sample(["input.h", "output.xml", "srcmlcpp_x/", "x.h", "x.xml", "srcmlcpp_1/"], rng.randint(0, 3)))


def short_reads(rng):
    return [dict(kind="short", op=rng.choice(["read", "write"]), k=rng.randint(0, 6)) for _ in range(rng.choice([0, 0, 1, 3]))]


def run(plan, res):
    S.lay_out(plan)
    st, ref = core.life(S.life_reference, plan["jobs"])
    if st != "ok":
        res.violate("hang", f"in-process parsing did not end ({st})")
        return
    before = tree(".")
    res.probes[plan["mode"]] += 1
    for calls in plan["jobs"]:
        for c in calls:
            res.probes[c["op"]] += 1
            res.steps += 1
    escapes = []
    if plan["mode"] == "threads":
        st, rep = core.life(S.life_threads, plan)
        res.lives += 1
        if st != "ok":
            res.violate("hang", f"the threads did not end ({st})")
            return
        res.interleavings += rep["switches"]
        res.states.add(digest(rep["schedule"]))
        results = rep["results"]
        escapes = rep["escapes"]
        res.faults.update(rep["fired"])
        if rep["deadlock"]:
            res.violate("deadlock", "the threads wait for one another")
        plan["_schedule"] = rep["schedule"]
    else:
        outs, used = S.run_processes_plan(plan, res)
        results = []
        for st, r in outs:
            if st != "ok":
                res.violate("hang", f"a process ended with {st} {r}")
                return
            results.append(r["results"])
            escapes += r["escapes"]
            res.faults.update(r["fired"])
        plan["_schedule"] = used
    if res.interleavings >= 2:
        res.nontrivial = True
    res.log.append((plan["mode"], digest(plan["_schedule"]), digest(results)))
    if escapes:
        res.violate("escape", f"{escapes[:3]}")
    for t, (got, want) in enumerate(zip(results, ref)):
        for k, (g, w) in enumerate(zip(got, want)):
            if w[0] == "ok" and g != w:
                res.violate("differs", f"caller {t} call {k} {plan['jobs'][t][k]['op']}: external {str(g)[:300]} in-process {str(w)[:200]}")
                break
            if w[0] != "ok" and g[0] == "ok":
                res.violate("differs", f"caller {t} call {k}: external gave a result, in-process {w}")
                break
    after = tree(".")
    for p in before:
        if after.get(p) != before[p]:
            res.violate("file-changed", f"{p} was changed or removed by somebody who does not own it")
            break
    new = sorted(p for p in after if p not in before)
    if new:
        res.violate("litter", f"left behind: {[core.stable_name(x) for x in new][:5]}")


def explicit(plan):
    """the schedule of the run, made explicit for minimisation and replay"""
    from sim.core import Result
    from sim.driver import run_plan
    import sys

    p = dict(plan)
    res: Result = run_plan(sys.modules[__name__], p)
    if "_schedule" not in p or len(p["_schedule"]) > 50000:
        return None
    q = {k: v for k, v in p.items() if k != "_schedule"}
    q["schedule"] = p["_schedule"]
    _ = res
    return q
