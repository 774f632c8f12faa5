"""C01: generators running in concurrent threads behave as if alone."""
from __future__ import annotations
import os
import sys

from sim import core
from sim.core import digest
from sim.env import Env
from sim.sched import Sched, elementtree_file
from props import gen as G
from sim.headers import TWINS
from props.gen import REAL, STUBS  # noqa: F401

RULE = ("two to four threads generating, parsing and publishing (own or shared options objects, equal or confusable headers, progress display), switched at seeded source lines or byte codes of litgen, srcmlcpp, codemanip and xml.etree, at native "
        "parser calls, locks and file operations; every answer is compared with the same job alone in a fresh process; non-trivial: control changed hands at least twice")
STATE_MEASURE = "digest of the schedule (step number and thread of every switch) of a run"
STEP_MEANING = "executed source lines (byte codes) and other scheduling points"
BUDGET = {"quick": 60, "thorough": 600}
SHRINK_KEYS = ["schedule", "jobs", "schedule", "opts", "leftovers"]
MUST_HIT = ["gen", "parse", "write", "shared-options", "opcodes", "progress", "error"]
MUST_HIT_RUNS = 600


_FILES: list = []


def source_files() -> list:
    if not _FILES:
        for d, _, fs in os.walk(core.SRC):
            if "tests" in d or "srcmlcpp_tools" in d or "validate" in d or "html" in d:
                continue
            _FILES.extend(os.path.relpath(os.path.join(d, f), core.SRC) for f in fs if f.endswith(".py") and f != "__init__.py")
        _FILES.sort()
    return _FILES


def focus(rng) -> list:
    """the source files between whose lines control may change hands (empty: all)"""
    if rng.random() < 0.4:
        return []
    if rng.random() < 0.5:
        d = rng.choice(["srcmlcpp/internal", "srcmlcpp/cpp_types", "litgen/internal/adapted_types", "litgen/internal", "codemanip", "litgen/litgen_generator.py"])
        return [f for f in source_files() if f.startswith(d)]
    return sorted(rng.sample(source_files(), rng.randint(1, 5)))


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    pool = G.Pool(rng)
    opts = []
    for i in range(rng.randint(1, 2)):
        opts.append(dict(op="opt", o=f"shared{i}", names=G.gen_opts(rng, 0.04, 3) + (["progress"] if rng.random() < 0.3 else [])))
    common = rng.random() < 0.35
    twins = rng.random() < 0.4
    if twins:
        opts[0]["names"] += [n for n in ("repl_a",) if n not in opts[0]["names"]]
    jobs = []
    outputs = []
    files = {}
    for t in range(n):
        ops = []
        for k in range(rng.randint(1, 2)):
            if rng.random() < 0.35:
                o = rng.choice(opts)["o"]
            else:
                o = f"t{t}o{k}"
                names = list(rng.choice(opts)["names"]) if common else G.twin(rng, rng.choice(opts)["names"]) if twins else G.gen_opts(rng, 0.04, 3) + (["progress"] if rng.random() < 0.3 else [])
                ops.append(dict(op="opt", o=o, names=names, key=f"t{t}"))
            x = rng.random()
            code = G.gen_code(rng, rng.choice(["", "", f"t{t}"]), pool, 2)
            name = G.gen_name(rng)
            key = f"t{t}"
            if x < 0.4:
                ops.append(dict(op="gen", o=o, code=code, key=key, omit=rng.random() < 0.1))
                if rng.random() < 0.1:
                    ops[-1]["native"] = [rng.randint(0, 6), "RuntimeError"]
            elif x < 0.6:
                ops.append(G.gen_other(rng, o, key, code, name))
            elif x < 0.75:
                files[f"h{t}.h"] = code
                outputs.append(f"out{t}")
                ops.append(dict(op="wfile", o=o, names=[f"h{t}.h"], tag=f"out{t}", key=key, glue=rng.random() < 0.5))
            else:
                g = f"t{t}g{k}"
                ops.append(dict(op="new", g=g, o=o))
                for _ in range(rng.randint(1, 2)):
                    ops.append(dict(op="proc", g=g, code=G.gen_code(rng, f"t{t}", pool, 2), name=name))
                for q in rng.sample(G.QUERIES, rng.randint(2, 5)):
                    ops.append(dict(op="q", g=g, what=q))
        jobs.append(ops)
    opcodes = rng.random() < 0.2
    return dict(opts=opts, jobs=jobs, outputs=sorted(set(outputs)), files=files, env=dict(seed=rng.randint(0, 1 << 20)), sched=rng.randint(0, 1 << 30),
                mean=rng.choice([2, 7, 30, 150, 600, 3000]) * (6 if opcodes else 1), opcodes=opcodes, focus=focus(rng))


TWIN = "namespace Lib\n{\nenum class Kind { FirstValue = 1, SecondValue };\nint FuncOne(int aValue = 1, double bValue = 1, Kind k = Kind::FirstValue);\ntemplate<class T> struct TplC { T myValue; double w = 1; };\nstruct Thing { int arr[NX]; int oneValue = 1; virtual void UseIt(bool& flagValue, int n = 1); };\n}\nvoid UseAll(Lib::TplC<int> t, Lib::Kind k = Lib::Kind::FirstValue, int q = 1);\ntemplate<class T> struct TplCx { T value; };\nvoid UseTplD(TplCx<double> t);\nvoid UseTplI(const TplCx<int> &w, TplCx<Also> a);\nvoid UseTplS(const TplCx<std::string> &x);\nstruct HasTpl { TplCx<double> d; std::vector<TplCx<double>> dd; TplCx<int> *i; };\ntemplate<class T> T TplFn(T a);\n"
SIMPLE = "namespace Abc\n{\nstruct Thing\n{\n    int innerValue = 1;\n    virtual void Go(int& v, bool* w);\n};\nvoid Use(Thing t = Thing());\n}\n"


def directed(tier):
    """the same job in two threads, at all scales of preemption"""
    out = []
    for mean in (1, 2, 5, 13, 40, 100, 400):
        for names in ([], ["boxed_all", "virtual_all", "protected_all"], ["progress"]):
            for shared in (False, True):
                o = [dict(op="opt", o="shared0", names=names)]
                jobs = []
                for t in range(2):
                    ops = [] if shared else [dict(op="opt", o=f"o{t}", names=names, key=f"t{t}")]
                    ops.append(dict(op="gen", o="shared0" if shared else f"o{t}", code=SIMPLE, key=f"t{t}"))
                    jobs.append(ops)
                out.append(dict(opts=o, jobs=jobs, outputs=[], files={}, env=dict(seed=1), sched=mean * 7 + len(names), mean=mean, opcodes=False, focus=[]))
    # options of the same shape with other contents
    for mean in (1, 3, 10, 30, 100):
        for k, names in enumerate((["repl_a", "tpl_class", "tpl_fn", "boxed_all"], ["repl_a", "exclude_fn", "custom_main", "num_macros", "virtual_all"], ["repl_b", "root_ns", "enum_flag", "member_ro"])):
            jobs = [[dict(op="opt", o=f"o{t}", names=n, key=f"t{t}"), dict(op="gen", o=f"o{t}", code=TWIN, key=f"t{t}")] for t, n in enumerate((names, [TWINS.get(n, n) for n in names]))]
            out.append(dict(opts=[], jobs=jobs, outputs=[], files={}, env=dict(seed=1), sched=mean * 11 + k, mean=mean, opcodes=False, focus=[]))
    # the native parser fails in one thread
    for k in range(4):
        jobs = [[dict(op="opt", o=f"o{t}", names=[], key=f"t{t}"), dict(op="gen", o=f"o{t}", code=SIMPLE, key=f"t{t}")] for t in range(2)]
        jobs[0][1]["native"] = [k, "RuntimeError"]
        out.append(dict(opts=[], jobs=jobs, outputs=[], files={}, env=dict(seed=1), sched=k, mean=40, opcodes=False, focus=[]))
    return out


def life_threads(ctx, plan):
    files = tuple(os.path.join(core.SRC, f) for f in plan["focus"]) or (core.SRC, elementtree_file())
    sched = Sched(plan["sched"], plan["mean"], files, plan.get("schedule"), plan["opcodes"])
    env = Env(ctx, dict(plan["env"]), sched=sched)
    env.install()
    env.fs.hook = lambda op, p: sched.yield_point(op)
    w = G.World(env, plan, sched)
    for op in plan["opts"]:
        w.do(op)

    def job(ops):
        def f():
            for op in ops:
                w.do(op)

        return f

    res = sched.run([job(ops) for ops in plan["jobs"]])
    rep = env.report()
    rep["results"] = w.log
    rep["threads"] = [r[0] if r[0] == "ok" else ("exc", repr(r[1]), r[2][-600:]) for r in res]
    rep["deadlock"] = sched.deadlock
    rep["switches"] = sched.switches
    rep["schedule"] = sched.schedule
    rep["steps"] = sched.steps
    return rep


def reference(plan, res):
    """each thread's operations alone, in the same order, in a fresh process"""
    out = {}
    for t, ops in enumerate(plan["jobs"]):
        G.lay_out(plan)
        st, rep = core.life(G.life_ops, plan, plan["opts"] + ops)
        res.lives += 1
        if st != "ok":
            res.violate("hang", f"job {t} alone did not end ({st})")
            return None
        for k, v in rep["results"].items():
            if k != "main":
                out[k] = v
        out["main"] = [e[:2] for e in rep["results"].get("main", [])]
    return out


def run(plan, res):
    ref = reference(plan, res)
    if ref is None:
        return
    G.lay_out(plan)
    st, rep = core.life(life_threads, plan, cpu=60)
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the threads did not end ({st})")
        return
    plan["_schedule"] = rep["schedule"]
    res.interleavings += rep["switches"]
    res.steps += rep["steps"]
    res.sim_time += rep["sim_time"]
    res.states.add(digest(rep["schedule"]))
    res.nontrivial = rep["switches"] >= 2
    for ops in plan["jobs"]:
        for op in ops:
            res.probes["gen" if op["op"] in ("gen", "proc") else "write" if op["op"] == "wfile" else op["op"]] += 1
            if str(op.get("o", "")).startswith("shared"):
                res.probes["shared-options"] += 1
            if "progress" in op.get("names", ()):
                res.probes["progress"] += 1
    if plan["opcodes"]:
        res.probes["opcodes"] += 1
    res.log.append(("threads", rep["switches"], rep["steps"], digest(rep["schedule"]), digest(sorted(rep["results"].items()))))
    if rep["switches"]:
        res.faults["thread-switch"] += rep["switches"]
    if rep["deadlock"]:
        res.violate("deadlock", "the threads wait for one another for ever")
        return
    for t, r in enumerate(rep["threads"]):
        if r != "ok":
            raise core.HarnessError(f"thread {t}: {r}")
    for k, want in ref.items():
        if k == "main":
            continue
        got = rep["results"].get(k, [])
        for i, (w, g) in enumerate(zip(want, got)):
            if w[1][0] == "exc":
                res.probes["error"] += 1
            if g[:2] != w[:2]:
                res.violate("differs", f"{k} answer {i} ({w[0]}) under threads:{G.diff(g[1], w[1])}")
                return
        if len(got) != len(want):
            res.violate("differs", f"{k}: {len(got)} answers instead of {len(want)}")
            return
    if rep["escapes"]:
        res.violate("escape", f"{rep['escapes'][:3]}")


def explicit(plan):
    from sim.driver import run_plan

    p = dict(plan)
    run_plan(sys.modules[__name__], p)
    if "_schedule" not in p or len(p["_schedule"]) > 50000:
        return None
    q = {k: v for k, v in p.items() if k != "_schedule"}
    q["schedule"] = p["_schedule"]
    return q
