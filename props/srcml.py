"""Shared parts of the external srcML backend properties: callers of the process backend, in threads or processes, and the
in-process library as the reference."""
from __future__ import annotations
import os
import sys

from sim import core
from sim.core import describe_exc, digest, put, stable_name, tree
from sim.env import Env
from sim.headers import header, make_options, SMALL
from sim.procs import run_processes
from sim.sched import Sched, elementtree_file

REAL = ["srcmlcpp.internal.code_to_srcml (external program backend)", "srcmlcpp, litgen generation on top of it", "native srcml library (as the reference, and inside the simulated srcml program)",
        "CPython tempfile, shutil and file objects, on a real scratch directory", "operating system processes (process mode)"]
STUBS = ["srcml executable (simulated program: reads and writes the real files named on its command line, result computed by the native srcml library)", "fault decisions of every file operation (sim/fs.py)",
         "thread and process scheduling (one runs at a time)", "clock"]
TMPS = ["tmp", "my tmp", "é tmp", "a;b", "$HOME", "q'uote", 'dq"x', "-x", "tmp/deep er", "a&b", "per%cent"]
ENCS = ["utf-8", "utf-8", "utf-8", "iso-8859-1", "cp1252", "shift_jis"]
WORDS = {"utf-8": "é 日本", "iso-8859-1": "é ü", "cp1252": "é €", "shift_jis": "日本"}
FATES = [dict(kind="absent"), dict(kind="unspawnable", e=0), dict(kind="unspawnable", e=1), dict(kind="exit", e=0), dict(kind="exit", e=1, when="after"), dict(kind="killed", e=0), dict(kind="killed", e=1, when="after"),
         dict(kind="killed", e=0, when="partial"), dict(kind="exit", e=2, when="partial"), dict(kind="no-output")]


def gen_call(rng, tag) -> dict:
    enc = rng.choice(ENCS)
    x = rng.random()
    if x < 0.1:
        return dict(op="gen", text=f"// {WORDS['utf-8']}\n" + header(rng, tag, 1, SMALL), enc="utf-8", opts=rng.choice([[], ["boxed_all"]]))
    text = rng.choice(["", "int a;", f"int {tag};\n// {WORDS[enc]}\n", f"void {tag}(int a = 1); // {WORDS[enc]}", "/* unterminated", f"#define X {tag}\n" + "int y;\n" * rng.randint(1, 40), f"class {tag} {{ int a; }};\n\n\n", "a < b && c > d;\n\t\"<&>\";\n",
                       f"int {tag};\r\n// {WORDS[enc]}\r\nint b;\rint c;\n", "// ]]> &amp; &#13;\n", "   \n\t\n\n", f"#if 0\nint {tag};\n#else\nint z[{{3}}]\n#endif", "\\\n", "'" + "x" * 9000 + "'"])
    if enc == "utf-8" and rng.random() < 0.15:
        text += "// \U0001f600 \u2028 \ufeff \x85"
    return dict(op="unparse" if x < 0.4 else "parse", text=text, enc=enc, pos=rng.random() < 0.7)


def canon(el) -> str:
    from xml.etree import ElementTree as ET

    return ET.tostring(el, encoding="unicode")


def do_call(c, native: bool):
    """-> ("ok", canonical result) or ("exc", description)"""
    from srcmlcpp.internal import code_to_srcml as m

    try:
        if c["op"] == "gen":
            import litgen

            m._USE_PYTHON_SRCML_CALLER_MODULE = native
            r = litgen.generate_code(make_options(c["opts"]), c["text"])
            return "ok", digest((r.pydef_code, r.stub_code, r.glue_code))
        if c["op"] == "parse":
            m._USE_PYTHON_SRCML_CALLER_MODULE = native
            return "ok", canon(m.code_to_srcml(c["text"], dump_positions=c["pos"], encoding=c["enc"]))
        m._USE_PYTHON_SRCML_CALLER_MODULE = native
        return "ok", m.srcml_to_code(c["_element"], encoding=c["enc"])
    except BaseException as e:
        return "exc", describe_exc(e)


def prepare(calls) -> list:
    """the elements to unparse are built by the native library, outside of the simulation"""
    import srcml_caller
    from xml.etree import ElementTree as ET

    out = []
    for c in calls:
        c = dict(c)
        if c["op"] == "unparse":
            xml = srcml_caller.to_srcml(code=c["text"], language=srcml_caller.CodeLanguage.c_plus_plus, encoding_src="utf-8", encoding_xml="utf-8", include_positions=c["pos"])
            xml = xml.replace('<unit revision="1.0.0"', '<unit xmlns="http://www.srcML.org/srcML" xmlns:pos="http://www.srcML.org/srcML/position" xmlns:cpp="http://www.srcML.org/srcML/cpp" revision="1.0.0"')
            c["_element"] = ET.fromstring(xml)
        out.append(c)
    return out


def life_reference(ctx, jobs):
    """each call alone, in the order of its caller, with the in-process library"""
    Env(ctx, dict(seed=0)).install()
    return [[do_call(c, True) for c in prepare(calls)] for calls in jobs]


def setup_env(ctx, plan, spec, sched=None):
    import tempfile

    env = Env(ctx, spec, sched=sched)
    env.install()
    tempfile.tempdir = os.path.join(env.fs.root, plan["tmp"])
    return env


def traced_files():
    return (os.path.join(core.SRC, "srcmlcpp"), os.path.join(core.SRC, "codemanip"), elementtree_file())


def life_threads(ctx, plan):
    """several threads of one process"""
    jobs = [prepare(calls) for calls in plan["jobs"]]
    sched = Sched(plan["sched"], plan["mean"], traced_files(), plan.get("schedule"))
    env = setup_env(ctx, plan, dict(plan["env"]), sched)
    env.fs.hook = lambda op, p: sched.yield_point(op)
    from srcmlcpp.internal import code_to_srcml as m

    m._USE_PYTHON_SRCML_CALLER_MODULE = False
    if plan.get("wide"):
        threads = sched.run([lambda calls=calls: [do_call(c, False) for c in calls] for calls in jobs])
    else:
        threads = sched.run([lambda calls=calls: [do_call(c, False) for c in calls] for calls in jobs])
    rep = env.report()
    rep["results"] = [t[1] if t[0] == "ok" else [("exc", repr(t[1]))] for t in threads]
    rep["deadlock"] = sched.deadlock
    rep["switches"] = sched.switches
    rep["schedule"] = sched.schedule
    return rep


def process_fn(plan, calls, k):
    def fn(ctx, remote):
        spec = dict(plan["env"], pid=31337 + k * 1000, **plan["procs"][k])
        cs = prepare(calls)
        env = setup_env(ctx, plan, spec, remote)
        env.fs.hook = lambda op, p: remote.yield_point(op)
        ctx.partial["results"] = got = []
        for c in cs:
            got.append(do_call(c, False))
        remote.closed = True
        rep = env.report()
        rep["results"] = got
        return rep

    return fn


def lay_out(plan) -> None:
    os.makedirs("tmp", exist_ok=True)
    os.makedirs(plan["tmp"], exist_ok=True)
    for n in plan.get("leftovers", []):
        if n.endswith("/"):
            os.makedirs(os.path.join(plan["tmp"], n), exist_ok=True)
        else:
            put(os.path.join(plan["tmp"], n), b"left over by somebody else")
    for n in ("input.h", "output.xml", "my", "tmp.txt"):
        put(n, b"decoy")


def run_processes_plan(plan, res):
    results, used, switches = run_processes([process_fn(plan, calls, k) for k, calls in enumerate(plan["jobs"])], plan["sched"], plan.get("schedule"), plan["mean"])
    res.lives += len(results)
    res.interleavings += switches
    res.states.add(digest(used))
    return results, used


_ = (sys, stable_name, tree)
