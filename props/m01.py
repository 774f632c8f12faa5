"""M01: diagnostics quote the true location and source of the code they are about."""
from __future__ import annotations
import re
import sys

from sim import core
from sim.core import digest
from sim.headers import header, k_warn, vocab_block, KINDS
from props import gen as G
from props.gen import REAL, STUBS  # noqa: F401
from props.c01 import focus, life_threads, SHRINK_KEYS  # noqa: F401

RULE = ("headers full of constructs that are warned about or rejected, parsed and generated one after the other (same file names with changed contents, files changed on disk, failed and interrupted parses in between) or in two to three threads switched at "
        "seeded source lines; every diagnostic naming a header must name an existing line of that very header and quote it, and the set of diagnostics must be that of the same parse alone in a fresh process; non-trivial: at least two headers gave diagnostics")
STATE_MEASURE = "digest of the order of the diagnostics with their locations, and of the schedule in threads"
STEP_MEANING = "parses and generations"
BUDGET = {"quick": 60, "thorough": 600}
MUST_HIT = ["warning", "error", "same-name-other-content", "threads", "sequence", "quoted", "changed-on-disk"]
MUST_HIT_RUNS = 500
NAMES = ["a.h", "a.h", "lib/a.h", "", "x/y/z/lib/b.h", "é.h", "my file.h"]


def bad_block(rng, u) -> str:
    return rng.choice([k_warn(rng, u), k_warn(rng, u), f"struct A{u} {{ int x; A{u} operator<<(int b, int c); }};\n", f"int operator%(A{u} a, A{u} b);\n", f"enum E{u} {{ Q{u} = sizeof(int), R{u}, S{u} = UNKNOWN_{u} + 2, T{u} }};\n",
                       f"namespace N{u}\n{{\n\n    struct B{u}\n    {{\n        unsigned int bits{u} : 3;\n\n        struct {{ int u; }} anon;\n        float *arr[3];\n    }};\n}}\n", f"void F{u}(int a[], void (*g{u})(int), ...);\n",
                       f"struct C{u}\n{{\n    template<typename T> T Tm{u}(T a);\n    int w[UNKNOWN];\n    std::string s[4];\n}};\n", f"template<class T, class U> struct D{u} {{ T t; }};\n",
                       f"void\nMulti{u}(\n    int a,\n    int (*cb)(int),\n    int c);\n"])


def gen_header(rng, u) -> str:
    out = [rng.choice(["", "", "\n", "\n\n\n", "  \n", "// first\n\n"])]
    for i in range(rng.randint(1, 4)):
        x = rng.random()
        out.append(bad_block(rng, rng.choice(["a", "b", u + str(i)])) if x < 0.6 else vocab_block(rng) if x < 0.8 else header(rng, u + str(i), 1, KINDS))
        out.append(rng.choice(["", "\n", "\n\n\n", "// é comment\n", "/* a\n b */\n", "// sep\u2028arator\n", "// next\x85line\n", "/* para\u2029graph */\n", "\t\n", "// \U0001f600\n", "    // tab\there\n"]))
    return "".join(out)


def gen(rng, tier):
    mode = rng.choice(["sequence", "sequence", "threads"])
    n = rng.choice([2, 2, 3]) if mode == "threads" else 1
    pool = G.Pool(rng)
    opts = [dict(op="opt", o=f"shared{i}", names=option_names(rng)) for i in range(rng.randint(1, 2))]
    jobs = []
    for t in range(n):
        ops = []
        for k in range(rng.randint(1, 2) if mode == "threads" else rng.randint(2, 6)):
            if rng.random() < 0.5:
                o = rng.choice(opts)["o"]
            else:
                o = f"t{t}o{k}"
                ops.append(dict(op="opt", o=o, names=option_names(rng), key=f"t{t}"))
            if pool and rng.random() < 0.25:
                code = rng.choice(pool)
                if rng.random() < 0.5:
                    code = "// one more line\n" + code
            else:
                code = gen_header(rng, f"t{t}k{k}")
            pool.append(code)
            name = rng.choice(NAMES)
            x = rng.random()
            key = f"t{t}"
            if x < 0.3:
                op = dict(op="parse", o=o, code=code, name=name, key=key)
            elif x < 0.5:
                op = dict(op="gen", o=o, code=code, key=key)
            elif x < 0.75:
                g = f"t{t}g{k}"
                ops.append(dict(op="new", g=g, o=o, key=key))
                op = dict(op="proc", g=g, code=code, name=name, key=key)
            else:
                name = rng.choice(["disk.h", "disk.h", f"d{t}.h"]) if mode == "sequence" else f"d{t}.h"
                ops.append(dict(op="save", name=name, code=code, key=key))
                op = dict(op="genfile", o=o, name=name, key=key)
            if rng.random() < 0.2 and mode == "sequence":
                op["interrupt"] = [G.where(rng, 5), rng.choice(["KeyboardInterrupt", "MemoryError"])]
            ops.append(op)
        jobs.append(ops)
    return dict(mode=mode, opts=opts, jobs=jobs, outputs=[], files={}, env=dict(seed=1), sched=rng.randint(0, 1 << 30), mean=rng.choice([2, 7, 30, 150, 600, 3000]), opcodes=False, focus=focus(rng))


def option_names(rng) -> list:
    return rng.sample(["nanobind", "boxed_all", "virtual_all", "no_empty_lines", "num_macros", "tpl_fn", "tpl_class", "cb:preprocess_id", "cb:match_exclude", "comment_repl", "indent2", "no_layout", "quiet"], rng.choice([0, 0, 1, 2]))


LOC = re.compile(r'While parsing a "[^"]*", corresponding to this C\+\+ code:\n(.*?):(\d+):(\d+)\n((?:    .*\n|\n)*)')


def check_quotes(text: str, names: dict, res, who: str):
    """names: header file name -> its text. Every diagnostic that names one of them is checked"""
    for m in LOC.finditer(text):
        name, line, col, quoted = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)
        if name not in names:
            if name != "Position":
                return f"{who}: a diagnostic names {name!r}, which is not its header"
            continue
        lines = names[name].split("\n")
        q = quoted.split("\n")
        res.probes["quoted"] += 1
        if not 1 <= line <= len(lines):
            return f"{who}: a diagnostic names line {line} of {name}, which has {len(lines)} lines"
        if q and q[0].strip() != lines[line - 1].strip():
            return f"{who}: the diagnostic about line {line} of {name} quotes {q[0].strip()!r}, the line is {lines[line - 1].strip()!r}"
        if not 1 <= col <= len(lines[line - 1].expandtabs(8)) + 1:
            return f"{who}: a diagnostic names column {col} of line {line} of {name}"
    return None


def named(op, saved) -> dict:
    k = op["op"]
    if k == "genfile":
        return {op["name"]: saved.get(op["name"], "")}
    if k in ("parse", "proc") and op.get("name"):
        return {op["name"]: op["code"]}
    return {}


def run(plan, res):
    want: dict = {}
    for t, ops in enumerate(plan["jobs"]):
        for i, op in enumerate(ops):
            if op["op"] in ("opt", "new", "save") or "interrupt" in op:
                continue
            # the same parse, alone, in a fresh process
            alone = plan["opts"] + [x for x in ops[:i] if x["op"] in ("opt", "new") and x.get("o") == op.get("o", x.get("o"))] + [x for x in ops[:i] if x["op"] == "save"][-1:] + [op]
            alone = [x for x in alone if x["op"] != "save" or x["name"] == op.get("name")]
            if op["op"] == "proc":
                first = next(j for j, x in enumerate(ops) if x.get("g") == op["g"] and x["op"] == "proc")
                if first != i:
                    continue
            st, rep = core.life(G.life_ops, plan, alone)
            res.lives += 1
            if st != "ok":
                res.violate("hang", f"a parse alone did not end ({st})")
                return
            want[t, i] = rep["results"][op["key"]][-1]
    G.lay_out(plan)
    if plan["mode"] == "threads":
        st, rep = core.life(life_threads, plan, cpu=60)
    else:
        st, rep = core.life(G.life_ops, plan, plan["opts"] + plan["jobs"][0])
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the run did not end ({st})")
        return
    res.probes[plan["mode"]] += 1
    res.faults.update(rep["fired"])
    if plan["mode"] == "threads":
        plan["_schedule"] = rep["schedule"]
        res.interleavings += rep["switches"]
        res.faults["thread-switch"] += rep["switches"]
        if rep["deadlock"]:
            res.violate("deadlock", "the threads wait for one another for ever")
            return
        res.states.add(digest(rep["schedule"]))
    res.states.add(digest([(k, [LOC.findall(e[2]) for e in v]) for k, v in sorted(rep["results"].items())]))
    res.log.append((plan["mode"], digest(sorted(rep["results"].items()))))
    with_diag = 0
    contents: dict = {}
    for t, ops in enumerate(plan["jobs"]):
        saved: dict = {}
        got = rep["results"].get(f"t{t}", [])
        if len(got) != len(ops):
            raise core.HarnessError(f"thread {t}: {len(got)} answers for {len(ops)} operations {rep.get('threads')}")
        for i, op in enumerate(ops):
            if op["op"] == "save":
                if saved.get(op["name"], op["code"]) != op["code"]:
                    res.probes["changed-on-disk"] += 1
                saved[op["name"]] = op["code"]
            if op["op"] in ("opt", "new", "save"):
                continue
            res.steps += 1
            _, r, w, _ = got[i]
            text = w + ("\n" + r[2] + "\n" if r[0] == "exc" else "")
            nm = named(op, saved)
            for n, c in nm.items():
                if contents.setdefault(n, c) != c:
                    res.probes["same-name-other-content"] += 1
            if w:
                res.probes["warning"] += 1
                with_diag += 1
            if r[0] == "exc":
                res.probes["error"] += 1
            bad = check_quotes(text, nm, res, f"thread {t} operation {i} ({op['op']})")
            if bad:
                res.violate("wrong-quote", bad)
                return
            if (t, i) in want:
                a, b = sorted(diagnostics(want[t, i][2])), sorted(diagnostics(w))
                if a != b:
                    res.violate("history", f"thread {t} operation {i} ({op['op']}): diagnostics{G.diff(b, a)}")
                    return
                if want[t, i][1][0] == "exc" and want[t, i][1] != r:
                    res.violate("history", f"thread {t} operation {i} ({op['op']}): error{G.diff(r, want[t, i][1])}")
                    return
    res.nontrivial = with_diag >= 2


def diagnostics(w: str) -> list:
    return [x for x in re.split(r"(?m)^(?=Warning: \(\w+\) (?!Warning: ))", w) if x.strip()]


def explicit(plan):
    from sim.driver import run_plan

    if plan["mode"] != "threads":
        return None
    p = dict(plan)
    run_plan(sys.modules[__name__], p)
    if "_schedule" not in p or len(p["_schedule"]) > 50000:
        return None
    q = {k: v for k, v in p.items() if k != "_schedule"}
    q["schedule"] = p["_schedule"]
    return q
