"""W01: every code viewer of a page works on its own, whatever the clock and the schedule."""
from __future__ import annotations
import os
import random
import sys

from sim import core
from sim.core import digest, put
from sim.env import Env
from sim.headers import any_header, make_options, gen_options
from sim.sched import Sched
from props import gen as G
from props import viewer as W

REAL = ["codemanip.html_code_viewer", "litgen.demo", "litgen (through the demo)", "IPython.core.display.HTML", "pygments", "the scripts of the page, executed by node"]
STUBS = ["the clock (coarse, frozen, jumping)", "the thread scheduler", "IPython.display.display (collects the page)", "the browser: a small document model, with clicks in a seeded order"]
RULE = ("one to three threads show several codes (texts, files, two columns, the demo), with titles, heights and initial states, under a seeded schedule and a clock that is coarse, stands still or jumps; the page made of all that was displayed is loaded in a small document model and its buttons are "
        "clicked at in a seeded order, while the window is resized: every click must open or close its own viewer, at its own height, and every copy must give the code which that viewer shows; non-trivial: at least two viewers")
STATE_MEASURE = "digest of the shows, the clock and the schedule"
STEP_MEANING = "shows and clicks"
BUDGET = {"quick": 30, "thorough": 300}
MUST_HIT = ["threads", "frozen", "coarse", "jump", "two-columns", "demo", "file", "copied", "own-height"]
MUST_HIT_RUNS = 200
SHRINK_KEYS = ["schedule", "shows", "clicks"]

PIECES = ["int a = 1;\n", "std::string s = \"a\\n\\tb\";\n", "// `tick` and ${brace} and $dollar\n", "const char* e = \"é 日本\";\n", "// <b>&amp; </script>\n", "auto r = R\"(\\d+\\\\)\";\n", "char c = '\\\\';\n", "def f(a: int = 2) -> str:\n    return f'{a}\\n'\n",
          "#define M(x) \\\n    x\n", "// copy_code_1 collapsible_content\n", "int b;\n", "x = `\\``\n", "// <!-- <script> -->\n", "// \\u00e9 \\x41 \\0\n", "let a = '\\u{1F600}';\n", "int win;\r\n", "// old\rmac\r"]


def gen_text(rng):
    if rng.random() < 0.2:
        return any_header(rng, "v", 0.1, 2).replace("\r", "")
    return "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 4)))


def gen(rng, tier):
    threads = rng.choice([1, 2, 2, 3])
    shows = []
    for i in range(rng.randint(2, 5) if threads == 1 else rng.randint(threads, 6)):
        s = dict(t=i % threads if i < threads else rng.randrange(threads), kind=rng.choice(["cpp", "python", "cpp", "cppfile", "pyfile", "single", "two", "demo"]), code=gen_text(rng), title=rng.choice(["", "A title", f"title {i}", "é.h"]),
                 height=rng.choice([None, None, 5, 40]), opened=rng.random() < 0.6)
        if s["kind"] == "two":
            s["code2"] = gen_text(rng)
        if s["kind"] == "demo":
            s.update(code=rng.choice([any_header(rng, f"d{i}", 0.0, 2), "int foo(int a);\n", "void g(bool& b);\n"]).replace("\r", ""), opts=gen_options(rng, nmax=1), height=rng.choice([5, 40]), show_cpp=rng.random() < 0.6)
        if shows and rng.random() < 0.25:  # the same again
            s = dict(rng.choice(shows), t=s["t"])
        shows.append(s)
    clock = rng.choice(["fine", "frozen", "coarse", "coarse", "jump"])
    opcodes = rng.random() < 0.4
    return dict(shows=shows, threads=threads, clock=clock, jumps=[[rng.randint(1, 8), rng.choice([-0.0014, -1.0, -3600, 86400])] for _ in range(2)] if clock == "jump" else [],
                sched=rng.randint(0, 1 << 30), mean=rng.choice([1, 2, 5, 15, 40]) * (5 if opcodes else 1), opcodes=opcodes, clicks=rng.randint(0, 1 << 30), nclicks=rng.randint(4, 25))


def directed(tier):
    """every clock, with and without threads"""
    for clock in ("frozen", "coarse", "jump", "fine"):
        for threads in (1, 2):
            shows = [dict(t=k % threads, kind=kind, code=f"int c{k}; // \\n `${{a}}`\n", code2=f"int d{k};\n", title=f"t{k}", height=h, opened=op, opts=[], show_cpp=True) for k, (kind, h, op) in enumerate([("cpp", None, True), ("two", None, False), ("cpp", 5, False), ("demo", 40, False)])]
            yield dict(shows=shows, threads=threads, clock=clock, jumps=[[2, -0.0007], [4, -0.0014]] if clock == "jump" else [], sched=threads, mean=2, opcodes=False, clicks=7, nclicks=16)


def life_shows(ctx, plan):
    sched = None
    if plan["threads"] > 1:
        sched = Sched(plan["sched"], plan["mean"], (os.path.join(core.SRC, "codemanip", "html_code_viewer"), os.path.join(core.SRC, "litgen", "demo")), plan.get("schedule"), plan["opcodes"])
    env = Env(ctx, dict(seed=1, clock_jumps=[j for j in plan["jumps"]]), sched=sched)
    env.clock.tick = {"frozen": 0.0, "coarse": 0.0004}.get(plan["clock"], 0.0007)
    env.clock.grain = {"coarse": 0.0156}.get(plan["clock"])
    env.install()
    import codemanip.html_code_viewer.html_code_viewer as v
    import litgen.demo.litgen_demo as d

    page: list = []
    results: list = [None] * len(plan["shows"])

    def job(t):
        def f():
            for n, s in enumerate(plan["shows"]):
                if s["t"] != t:
                    continue
                old = sys.gettrace()
                lang = v.CodeLanguage.Python if s["kind"] in ("python", "pyfile") else v.CodeLanguage.Cpp
                try:
                    k = s["kind"]
                    if k in ("cpp", "python"):
                        (v.show_cpp_code if k == "cpp" else v.show_python_code)(s["code"], s["title"], s["height"], s["opened"])
                    elif k in ("cppfile", "pyfile"):
                        (v.show_cpp_file if k == "cppfile" else v.show_python_file)(f"code{n}.txt", s["title"] or None, s["height"], s["opened"])
                    elif k == "single":
                        page.append((t, v.collapsible_code_and_title(v.CodeAndTitle(lang, s["code"], s["title"]), s["height"], s["opened"])))
                    elif k == "two":
                        page.append((t, v.collapsible_code_and_title_two_columns(v.CodeAndTitle(lang, s["code"], s["title"]), v.CodeAndTitle(lang, s["code2"], s["title"]), s["height"], s["opened"])))
                    else:
                        sys.settrace(old)
                        d.demo(make_options(s["opts"]), s["code"], s["show_cpp"], s["opened"], s["height"])
                    results[n] = "ok"
                except Exception as e:
                    results[n] = [type(e).__name__, str(e)[:500]]

        return f

    W.collect(lambda h: page.append((sched.me() if sched else 0, h)))
    rep = dict(deadlock=False, switches=0, schedule=[], sim_time=0.0)
    if sched:
        for r in sched.run([job(t) for t in range(plan["threads"])]):
            if r[0] != "ok":
                raise core.HarnessError(f"thread: {r[1]!r} {r[2][-500:]}")
        rep = dict(deadlock=sched.deadlock, switches=sched.switches, schedule=sched.schedule)
    else:
        for t in range(plan["threads"]):
            job(t)()
    rep.update(page=page, results=results, jumped=env.clock.jumped, sim_time=env.clock.advanced)
    return rep


def lay_out(plan):
    for n, s in enumerate(plan["shows"]):
        if s["kind"] in ("cppfile", "pyfile"):
            put(f"code{n}.txt", s["code"].encode("utf-8"))


def lines(text):
    """(a page has one kind of line ends)"""
    return text.replace("\r\n", "\n").replace("\r", "\n")


def expected(plan, rep, t):
    """what the viewers of one thread shall show: (code or None when it is generated, title, height, opened)"""
    out = []
    plan = dict(plan, shows=[{k: lines(v) if k in ("code", "code2") else v for k, v in s.items()} for s in plan["shows"]])
    for n, s in enumerate(plan["shows"]):
        if s["t"] != t or rep["results"][n] != "ok":
            continue
        title = s["title"] or (f"code{n}.txt" if s["kind"] in ("cppfile", "pyfile") else "")
        if s["kind"] == "demo":
            out.append([(s["code"], None, s["height"], True)] * s["show_cpp"] + [(None, None, s["height"], True)] + [(None, None, s["height"], s["opened"])] * 2)
        else:
            out.append([(s["code"], title, s["height"], s["opened"])] + ([(s["code2"], title, s["height"], s["opened"])] if s["kind"] == "two" else []))
    return out


def run(plan, res):
    W.load_viewer()
    lay_out(plan)
    st, rep = core.life(life_shows, plan, cpu=60)
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the viewers were not made ({st})")
        return
    res.steps += len(plan["shows"])
    res.interleavings += rep["switches"]
    res.sim_time += rep["sim_time"]
    if rep["switches"]:
        res.faults["thread-switch"] += rep["switches"]
    if rep["jumped"]:
        res.faults["clock-jump"] += rep["jumped"]
    if plan["clock"] in ("frozen", "coarse"):
        res.faults["clock-" + plan["clock"]] += 1
    if plan["threads"] > 1:
        res.probes["threads"] += 1
        plan["_schedule"] = rep["schedule"]
    if rep["deadlock"]:
        res.violate("deadlock", "the threads wait for one another for ever")
        return
    for n, s in enumerate(plan["shows"]):
        if rep["results"][n] != "ok" and s["kind"] != "demo":
            res.violate("not-shown", f"show {n} ({s['kind']}): {rep['results'][n]}")
            return
    # the page: what was displayed, in that order
    items, viewers, balanced = W.parse("".join(h for _, h in rep["page"]))
    want = []
    queues = {t: expected(plan, rep, t) for t in range(plan["threads"])}
    for t, h in rep["page"]:
        q = queues[t].pop(0)
        n = len(W.parse(h)[1])
        if len(q) >= 3 and n == len(q) + 1:
            q = q + [(None, None, q[-1][2], q[-1][3])]  # (the glue code)
        want += q
    if not balanced or len(viewers) != len(want) or any(v[2] is None for v in viewers):
        res.violate("broken-page", f"{len(viewers)} viewers on the page, {len(want)} were shown")
        return
    for k, ((_h, _c, _b, shown, title), (code, ttl, height, opened)) in enumerate(zip(viewers, want)):
        if code is not None and shown.strip("\n").strip() != code.strip("\n").strip():
            res.violate("wrong-code", f"viewer {k} shows:{G.diff(shown.strip(), code.strip())}")
            return
        if ttl is not None and title.strip() != ttl:
            res.violate("wrong-title", f"viewer {k} has the title {title!r} instead of {ttl!r}")
            return
    rng = random.Random(plan["clicks"])
    clicks = []
    for _ in range(plan["nclicks"]):
        v = rng.choice(viewers)
        if rng.random() < 0.1:
            clicks.append(-rng.randint(1, 4))
            continue
        clicks.append(v[2] if rng.random() < 0.4 else v[0])
    r = W.use_page([{a: b for a, b in e.items() if a != "text" or e["tag"] == "script"} for e in items], clicks)
    res.steps += len(clicks)
    if r["errors"]:
        res.violate("script-error", f"{r['errors'][:3]}")
        return

    def heights(k):
        h = want[k][2]
        return [f"{h}em"] if h is not None else [f"{1000 * size[k] + viewers[k][1]}px"]

    size = [1] * len(viewers)  # (the size of the window when a viewer was opened)
    now = 1
    state = [op for _, _, _, op in want]
    for step, h in enumerate(r["history"]):
        copied = None
        if step:
            h, copied = h
            n = clicks[step - 1]
            k = next((i for i, v in enumerate(viewers) if n in (v[0], v[2])), None)
            if n < 0:
                now = -n
                res.faults["resize"] += 1
            elif n == viewers[k][0]:
                state[k] = not state[k]
                size[k] = now
            else:
                res.probes["copied"] += 1
                code = want[k][0]
                if copied is None or (code is not None and copied != code) or copied.strip("\n").strip() != viewers[k][3].strip("\n").strip():
                    res.violate("wrong-copy", f"the copy button of viewer {k} gives:{G.diff(copied, code if code is not None else viewers[k][3])}")
                    return
        for k, (x, looks_open) in enumerate(h):
            if looks_open != state[k]:
                res.violate("wrong-look", f"after {step} clicks the header of viewer {k} looks {'open' if looks_open else 'closed'}")
                return
            if (x is not None) != state[k]:
                res.violate("wrong-toggle", f"after {step} clicks viewer {k} is {'open' if x else 'closed'}")
                return
            if x is not None and x not in heights(k):
                res.violate("wrong-height", f"after {step} clicks viewer {k} has the height {x} instead of {heights(k)}")
                return
            if x is not None and want[k][2] is None:
                res.probes["own-height"] += 1
    res.nontrivial = len(viewers) >= 2
    res.probes[plan["clock"]] += 1
    for s in plan["shows"]:
        res.probes[{"two": "two-columns", "cppfile": "file", "pyfile": "file"}.get(s["kind"], s["kind"])] += 1
    res.states.add(digest((plan["clock"], [(s["t"], s["kind"], s["opened"], s["height"]) for s in plan["shows"]], rep["schedule"])))
    res.log.append(("page", len(viewers), digest([(t, len(h)) for t, h in rep["page"]]), digest(r), digest(rep["schedule"])))


def explicit(plan):
    from sim.driver import run_plan

    if plan["threads"] < 2:
        return None
    p = dict(plan, _schedule=None)
    run_plan(sys.modules[__name__], p)
    if not p.get("_schedule"):
        return None
    q = {k: v for k, v in p.items() if k != "_schedule"}
    q["schedule"] = p["_schedule"]
    return q
