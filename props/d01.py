"""D01: the generated text is a function of the headers and options only."""
from __future__ import annotations
import gc
import os
import sys

from sim import core
from sim.core import digest
from sim.interp import hash_seeds, life_in
from props import gen as G
from props.gen import REAL, STUBS  # noqa: F401
from props.h02 import inject

RULE = ("one scenario (one-shot generations, header files, multi-header publications, generators fed several times) repeated in other worlds: interpreters with other string-hash seeds or run with -O and -OO, other clocks that jump, working and temporary directories, environment variables, "
        "locale, random state, process id, file times, object addresses, garbage collection, files lying around, and other histories of the process (generations that succeeded, failed or were interrupted); every text is compared with the plain world; non-trivial: the scenario generates something in two worlds")
STATE_MEASURE = "digest of a scenario's texts with the kind of the other world"
STEP_MEANING = "operations whose text was compared between two worlds"
BUDGET = {"quick": 60, "thorough": 600}
MUST_HIT = ["hash", "optimize", "clock", "cwd", "environ", "locale", "random", "memory", "neighbours", "history", "history-failed", "write", "shared-options"]
MUST_HIT_RUNS = 300

HISTORY_O = "hist"


def scenario(rng, pool, files, outputs) -> list:
    ops = []
    for i in range(rng.randint(1, 2)):
        names = G.gen_opts(rng, 0.03, 5)
        ops.append(dict(op="opt", o=f"o{i}", names=names))
    n = len(ops)
    for k in range(rng.randint(1, 3)):
        o = f"o{rng.randrange(n)}"
        x = rng.random()
        if x < 0.3:
            ops.append(dict(op="gen", o=o, code=G.gen_code(rng, f"k{k}", pool, 5), omit=rng.random() < 0.1))
        elif x < 0.4:
            ops.append(G.gen_other(rng, o, None, G.gen_code(rng, f"k{k}", pool, 4), G.gen_name(rng), files))
        elif x < 0.55:
            name = rng.choice(["a.h", "lib/b.h", "é.h", "lib/sub/d.h", "ABS/inc/sub/e.h", "$HOME/h.h", "~/h.h", "${USER}.h", "~root/x y.h"])
            files[name] = G.gen_code(rng, f"k{k}", pool, 4)
            ops.append(dict(op="genfile", o=o, name=name))
        elif x < 0.7:
            names = rng.sample(["a.h", "lib/b.h", "c.h", "lib/sub/d.h", "ABS/inc/sub/e.h", "ABS/f.h"], rng.randint(1, 3))
            for f in names:
                files[f] = G.gen_code(rng, f"k{k}{f[-3]}", pool, 3)
            outputs.append(f"w{k}")
            ops.append(dict(op="wfile", o=o, names=names, tag=f"w{k}", glue=rng.random() < 0.5))
        else:
            g = f"g{k}"
            ops.append(dict(op="new", g=g, o=o))
            for _ in range(rng.randint(1, 3)):
                ops.append(dict(op="proc", g=g, code=G.gen_code(rng, f"k{k}", pool, 3), name=G.gen_name(rng)))
            ops += [dict(op="q", g=g, what=w) for w in ("pydef", "stub", "glue")]
    return ops


def same_size(code) -> str:
    for a, b in (("1", "4"), ("2", "5"), ("3", "6"), ("Use", "Usf"), ("Make", "Mbke"), ("Value", "Vblue"), ("Func", "Gunc")):
        code = code.replace(a, b)
    return code.swapcase() if code and code[0] == "/" else code


def history(rng, pool, files, ops) -> list:
    """what the process did before: with the scenario's own options objects or others, successfully or not"""
    own = [op for op in ops if op["op"] == "opt"]
    names = G.twin(rng, rng.choice(own)["names"]) if own and rng.random() < 0.3 else G.gen_opts(rng, 0.1, 4)
    out = [dict(op="opt", o="hist", names=names)]
    for k in range(rng.randint(1, 4)):
        shared = rng.random() < 0.4
        o = rng.choice(own)["o"] if shared else "hist"
        x = rng.random()
        code = G.gen_code(rng, f"z{k}", pool, 3)
        if x < 0.3:
            op = dict(op="gen", o=o, code=code)
            if rng.random() < 0.5:
                op["interrupt"] = [G.where(rng, 5.2), rng.choice(["KeyboardInterrupt", "MemoryError", "CallbackAbort"])]
            out.append(op)
        elif x < 0.4:
            out.append(G.gen_other(rng, o, None, code, rng.choice(["a.h", "lib/b.h", ""])))
        elif x < 0.48 and files:
            # a header that has other contents of the same size for a while
            f = rng.choice(sorted(files))
            out += [dict(op="save", name=f, code=same_size(files[f])), dict(op="genfile", o=o, name=f), dict(op="save", name=f, code=files[f])]
        elif x < 0.55:
            f = f"z{k}.h"
            files[f] = code
            out.append(dict(op="genfile", o=o, name=rng.choice([f, "missing.h"])))
        else:
            out.append(dict(op="new", g=f"z{k}", o=o))
            op = dict(op="proc", g=f"z{k}", code=code, name=rng.choice(["a.h", "lib/b.h", "b.h", ""]))
            if rng.random() < 0.5:
                bad: dict = {}
                inject(rng, op, names if not shared else [], bad, k)
                op.pop("fault", None)
                for n, f in bad.items():
                    if not f["tail"]:
                        files[n] = f["text"]
            out.append(op)
            if rng.random() < 0.5:
                out.append(dict(op="q", g=f"z{k}", what=rng.choice(G.QUERIES)))
    return out


ENVIRON = {"HOME": ["/nonexistent", "/tmp"], "LANG": ["C", "fr_FR.UTF-8", "tr_TR"], "LC_ALL": ["C", "POSIX", "tr_TR.UTF-8"], "TZ": ["Asia/Tokyo", "America/New_York"], "USER": ["someone", None], "LOGNAME": ["x"], "COLUMNS": ["20", "500"],
           "TERM": ["dumb", "xterm-256color"], "NO_COLOR": ["1"], "PATH": ["/nonexistent"], "PYTHONPATH": ["/nonexistent"], "SOURCE_DATE_EPOCH": ["0"], "HOSTNAME": ["other"], "CI": ["true"], "DEBUG": ["1"], "LITGEN_DEBUG": ["1"], "VIRTUAL_ENV": ["/v"], "PWD": ["/elsewhere"],
           "CC": ["clang"], "CXX": ["clang++"], "EDITOR": ["vi"], "DISPLAY": [":0"], "XDG_CACHE_HOME": ["/nonexistent/c"], "PYTHONOPTIMIZE": ["2"], "PYTHONHASHSEED": ["7"]}


NEIGHBOURS = [".env", "litgen.toml", "litgen.json", ".litgen", "pyproject.toml", "setup.cfg", "sitecustomize.py", "srcml.xml", "a.h.xml", "a.h.bak", "a.h.orig", "lib/a.h~", "lib/b.pyi", "a.pyi", "b.cpp", "compile_commands.json", ".clang-format", "CMakeLists.txt", "options.py", "litgen_options.json", "logging.conf", ".gitignore", "lib/options.json"]


def world(rng, pool, files, ops, kinds=None) -> dict:
    """what differs from the plain world"""
    w: dict = {}
    kinds = kinds or rng.sample(["hash", "clock", "cwd", "tmp", "environ", "locale", "random", "memory", "history", "process", "optimize", "neighbours"], rng.choice([1, 1, 2, 4, 12]))
    if "hash" in kinds:
        w["hash"] = rng.choice(hash_seeds())
    if "optimize" in kinds:
        w["optimize"] = rng.choice([1, 2, 2])
    if "clock" in kinds:
        w["clock_start"] = rng.choice([0.0, 1.0, 86399.5, 951782399.9, 1_699_999_999.9, 2**31 - 1, 2**32, 4102444799.0, 1_700_000_000.0 + rng.randint(1, 10**7)])
        w["clock_jumps"] = [[rng.randint(1, 40), rng.choice([-3600.0, 3600.0, -1e8, 1e8, 0.5, 86400.0])] for _ in range(rng.randint(0, 4))]
        if rng.random() < 0.5:  # a machine so slow that much time passes between two readings
            w["clock_tick"] = rng.choice([0.0, 0.9, 7.0, 61.0, 3700.0, 90000.0])
    if "neighbours" in kinds:  # files that have the names of headers given as text, and lie next to the headers
        names = sorted({op["name"] for op in ops if op["op"] in ("proc", "parse", "yaml", "adapt") and op.get("name")})
        names = [n for n in names if n not in files and not n.startswith("ABS/")] + rng.sample(NEIGHBOURS, rng.randint(1, 4))
        w["neighbours"] = [[n, G.gen_code(rng, f"y{i}", pool, 2)] for i, n in enumerate(names) if n not in files]
    if "cwd" in kinds:
        w["cwd"] = rng.choice(["elsewhere", "a/b c/d", "é", "lib", "src/litgen", "__pycache__", "x" * 60, "abs", "abs/inc", "abs/inc/sub", "abs/inc/sub/below"])
    if "tmp" in kinds:
        w["tmp"] = rng.choice(["tmpdir", "t mp", "tmp/é"])
    if "environ" in kinds:
        w["environ"] = {k: rng.choice(ENVIRON[k]) for k in sorted(rng.sample(sorted(ENVIRON), rng.randint(1, 8)))}
    if "locale" in kinds:
        w["locale"] = rng.choice(["ascii", "latin-1", "cp1252", "shift_jis", "utf-8"])
    if "random" in kinds:
        w["random"] = rng.randint(1, 1 << 30)
    if "process" in kinds:
        w["pid"] = rng.choice([1, 2, 4194303, rng.randint(3, 99999)])
        w["umask"] = rng.choice([0, 0o77, 0o27])
        w["argv"] = rng.choice([["x"], ["/usr/bin/python", "-O"], [""], ["-c", "--verbose"]])
        w["mtime"] = rng.choice([0, 1, 2_000_000_000])
        w["machine"] = dict(cpus=rng.choice([1, 2, 256, None]), ppid=rng.choice([0, 1, 77]), host=rng.choice(["a", "build-1.ci", ""]), uid=rng.choice([0, 1000]), recursion=rng.choice([1000, 1500, 5000]), switch=rng.choice([0.001, 0.5]), point=",")
    if "memory" in kinds:
        w["memory"] = [rng.randint(1, 20000), rng.choice([0, 0, 50, 700])]
    if "history" in kinds:
        w["history"] = history(rng, pool, files, ops)
    return w


def gen(rng, tier):
    pool = G.Pool(rng)
    files: dict = {}
    outputs: list = []
    ops = scenario(rng, pool, files, outputs)
    worlds = [world(rng, pool, files, ops) for _ in range(rng.choice([2, 3, 4]))]
    return dict(ops=ops, files=files, outputs=outputs, worlds=worlds, env=dict(seed=1))


SUFFIXES = "".join(f"namespace {a}\n{{\n    struct T{a} {{ int a = 1; }};\n    void F{a}({b}::T{b} t = {b}::T{b}(), {a}::{b}::Q q = {b}::{a}::W());\n}}\n" for a, b in [("Abc", "XAbc"), ("XAbc", "YXAbc"), ("YXAbc", "Abc"), ("Lib", "MyLib"), ("MyLib", "Lib"), ("A", "AA"), ("AA", "A")])
SUFFIXES += "".join(f"void After{a}({a}::T{a} t = {a}::T{a}(), std::vector<{a}::T{a}> v = {{}});\n" for a in ("YXAbc", "XAbc", "Abc", "MyLib", "Lib", "AA", "A"))
CHAINS = "".join(f"typedef {a} T{i};\nvoid C{i}({a} x, const {a} &y = {v});\n" for i, (a, v) in enumerate([("std::vector<std::vector<std::vector<int>>>", "{}"), ("std::map<std::string, std::vector<std::optional<double>>>", "{}"), ("std::function<std::vector<std::string>(std::vector<float>)>", "nullptr"), ("std::optional<std::vector<std::tuple<int, std::string>>>", "std::nullopt")]))
BOXES = "void Box(int& a, float& b, double* c, bool& d, unsigned int& e, std::string& f, long long* g);\nvoid Box2(std::string& s, char& c, short& d);\nvoid Box3(size_t& a, int8_t& b, ssize_t& c, int16_t& d, uint8_t& e, int32_t* f, int64_t* g, uint16_t& h, uint32_t& i, long& j, long double& k, signed int& l, signed long& m);\n"
TPLS = "template<typename T> T TplF(T a);\ntemplate<class T> struct TplC { T v; std::vector<T> w; };\n"


def directed(tier):
    """every kind of world, for headers full of namespaces, boxed types, templates and custom bindings"""
    import random

    out = []
    rng = random.Random(5)
    for names in ([], ["boxed_all", "virtual_all", "protected_all", "custom_main", "custom_ns", "custom_lib"], ["nanobind", "boxed_all", "tpl_fn", "tpl_class"], ["root_ns", "arith", "class_ctor", "globals", "macros", "tpl_fn", "tpl_class"], ["loc", "loc1", "repl_a", "type_repl"]):
        for code in (SUFFIXES, BOXES + TPLS + SUFFIXES):
            ops = [dict(op="opt", o="o0", names=names), dict(op="gen", o="o0", code=code), dict(op="new", g="g", o="o0"), dict(op="proc", g="g", code=CHAINS, name="lib/n.h"), dict(op="q", g="g", what="pydef"), dict(op="q", g="g", what="stub")]
            worlds = [world(rng, [], {}, ops, [k]) for k in ("hash", "hash", "hash", "clock", "cwd", "environ", "memory", "random", "locale", "optimize", "clock", "neighbours")]
            worlds[-2] = dict(clock_tick=61.0)
            for w, h in zip(worlds, hash_seeds()):
                w["hash"] = h
            out.append(dict(ops=ops, files={}, outputs=[], worlds=worlds, env=dict(seed=1)))
    # headers named relatively to the working directory, and locations in the generated code
    files = {"lib/sub/d.h": "int D(int a = 1);\nstruct DD { int x = 1; };\n", "a.h": "// é\nint A();\n", "lib/b.h": "namespace N\n{\n    enum class E { A = 1, B };\n    void F(E e = E::B);\n}\n", "ABS/inc/sub/e.h": "struct EE { int E(int a = 2); };\n"}
    for names in (["parents2", "loc"], ["loc1", "nanobind"], ["fullpath", "loc"]):
        ops = [dict(op="opt", o="o0", names=names), dict(op="wfile", o="o0", names=sorted(files), tag="w", glue=True)] + [dict(op="genfile", o="o0", name=n) for n in sorted(files)]
        ops += [dict(op="new", g="g", o="o0"), dict(op="proc", g="g", code=files["lib/b.h"], name="x.h")]
        ops += [dict(op="proc", g="g", code=f"int P{i}(int a = 1);\n", name=n) for i, n in enumerate(("~/lib/n.h", "$HOME/n.h", "${USER}/n.h", "../n.h", "~root/n.h"))]
        ops += [dict(op="q", g="g", what="pydef"), dict(op="q", g="g", what="stub")]
        worlds = [world(rng, [], files, ops, [k]) for k in ("cwd", "cwd", "tmp", "environ", "process")]
        worlds += [dict(cwd=d) for d in ("abs/inc", "abs/inc/sub", "lib/sub")]
        hist = [dict(op="opt", o="hist", names=[])]
        for f in sorted(files):
            hist += [dict(op="save", name=f, code=same_size(files[f])), dict(op="genfile", o=rng.choice(["hist", "o0"]), name=f), dict(op="save", name=f, code=files[f])]
        worlds.append(dict(history=hist))
        out.append(dict(ops=ops, files=files, outputs=["w"], worlds=worlds, env=dict(seed=1)))
    return out


def lay_out(plan, root, mtime) -> None:
    for t in plan["outputs"]:
        core.put(os.path.join(root, t + ".cpp"), G.PYDEF_FILE)
        core.put(os.path.join(root, t + ".pyi"), G.STUB_FILE)
        core.put(os.path.join(root, t + "_glue.cpp"), b"// <litgen_glue_code>\n// </litgen_glue_code>\n")
    for n, c in plan["files"].items():
        core.put(G.full(n, "") if n.startswith("ABS/") else os.path.join(root, n), c.encode("utf-8"), mtime=mtime)


JUNK: list = []


class WatchedEnviron(os._Environ):
    """notes which environment variables are looked up"""

    def __getitem__(self, key):
        WatchedEnviron.read.add(key)
        return super().__getitem__(key)


WatchedEnviron.read = set()
READ_BY_PYTHON = {"TMPDIR", "TEMP", "TMP", "TZ", "PATH"}


def more_worlds(names) -> list:
    """a world for each value that a variable looked up in the plain world may have"""
    out = []
    for k in sorted(set(names) - READ_BY_PYTHON)[:6]:
        for v in ("1", "0", "", "true", None):
            if v is not None or k in os.environ:
                out.append(dict(environ={k: v}, looked_up=True))
    return out


def neutral(x, top):
    if isinstance(x, str):
        return x.replace(top, "<TOP>")
    return [neutral(y, top) for y in x] if isinstance(x, (list, tuple)) else x


def life_world(ctx, plan, w):
    top = os.getcwd()
    plan = dict(plan, _top=top)
    if "cwd" in w:
        os.chdir(w["cwd"])
    spec = dict(plan["env"])
    for k in ("clock_start", "clock_jumps", "clock_tick", "locale", "random", "pid"):
        if k in w:
            spec[k] = w[k]
    spec["environ"] = dict(w.get("environ", {}))
    if "tmp" in w:
        spec["environ"]["TMPDIR"] = os.path.abspath(w["tmp"])
    if "umask" in w:
        os.umask(w["umask"])
    if "argv" in w:
        sys.argv[:] = w["argv"]
    if "memory" in w:
        n, every = w["memory"]
        for i in range(n):
            JUNK.append([object(), "x" * (i % 61), {i: i}] if i % 3 else bytes(i % 997))
        del JUNK[:: 1 + n % 3]
        if every:
            gc.enable()
            gc.set_threshold(every, 3, 3)
    old_tmp = os.environ.get("TMPDIR")
    if "machine" in w:
        m = w["machine"]
        import platform
        import socket

        import locale

        # (a process that called setlocale, in a country that writes decimal commas)
        locale._override_localeconv = dict(decimal_point=m["point"], thousands_sep=".", mon_decimal_point=m["point"])
        os.cpu_count = lambda: m["cpus"]
        os.getppid = lambda: m["ppid"]
        socket.gethostname = platform.node = lambda: m["host"]
        os.getuid = os.geteuid = lambda: m["uid"]
        sys.setrecursionlimit(m["recursion"])
        sys.setswitchinterval(m["switch"])
    if "TZ" in spec["environ"]:
        import time

        os.environ["TZ"] = spec["environ"]["TZ"]
        time.tzset()
    rep = None

    hist = w.get("history", [])
    opts = [op for op in plan["ops"] if op["op"] == "opt"]
    rest = [op for op in plan["ops"] if op["op"] != "opt"]
    os.environ.__class__ = WatchedEnviron
    WatchedEnviron.read.clear()
    rep = G.life_ops(ctx, plan, opts + hist + rest, spec)
    entries = rep["entries"]
    mark = len(opts) + len(hist)
    if len(entries) != mark + len(rest):
        raise core.HarnessError(f"{len(entries)} answers for {mark + len(rest)} operations (TMPDIR {old_tmp})")
    return dict(texts=[(op["op"], neutral(r, top)) for op, r, _ in entries[mark:]], fired=rep["fired"], failed=sum(r[0] == "exc" for _, r, _ in entries[len(opts) : mark]), sim_time=rep["sim_time"], implicit=rep["implicit_locale"][:3], read=sorted(WatchedEnviron.read))


def run(plan, res):
    lay_out(plan, ".", 1_000_000_000)
    st, ref = core.life(life_world, plan, {})
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the plain world did not end ({st})")
        return
    something = [t for t in ref["texts"] if t[1][0] == "ok" and t[1][1]]
    for k, w in enumerate(plan["worlds"] + more_worlds(ref["read"])):
        root = w.get("cwd", ".")
        os.makedirs(root, exist_ok=True)
        if "tmp" in w:
            os.makedirs(os.path.join(root, w["tmp"]), exist_ok=True)
        lay_out(plan, root, w.get("mtime", 1_000_000_000))
        own = {os.path.normpath(n) for n in plan["files"]} | {t + e for t in plan["outputs"] for e in (".cpp", ".pyi", "_glue.cpp")}
        around = {os.path.normpath(n): c for n, c in w.get("neighbours", []) if os.path.normpath(n) not in own}
        for n, c in around.items():
            core.put(os.path.join(root, n), c.encode("utf-8"))
        st, rep = life_in(w.get("hash"), life_world, plan, w, optimize=w.get("optimize", 0))
        for n in around:
            core.REAL_OS["unlink"](os.path.join(root, n))
        res.lives += 1
        kinds = sorted({"clock_start": "clock", "clock_jumps": "clock", "clock_tick": "clock"}.get(x, x) for x in w)
        if st != "ok":
            res.violate("hang", f"another world ({', '.join(kinds)}) did not end ({st})")
            return
        for x in set(kinds):
            res.probes[x] += 1
            res.faults["other-" + x] += 1
        for x, n in rep["fired"].items():
            res.faults[x] += n
        if rep["failed"]:
            res.probes["history-failed"] += 1
        if any(op.get("o", "hist") != "hist" for op in w.get("history", [])):
            res.probes["shared-options"] += 1
        if plan["outputs"]:
            res.probes["write"] += 1
        res.sim_time += rep["sim_time"]
        for i, (a, b) in enumerate(zip(ref["texts"], rep["texts"])):
            res.steps += 1
            x, y = a[1], b[1]
            if x[0] == y[0] == "exc":
                x, y = x[:2], y[:2]
            if "optimize" in w and x[0] == "exc" and x != y:
                # (python -O does without the assertions that rejected this header: what follows may differ)
                break
            if x != y:
                res.violate("differs", f"operation {i} ({a[0]}) in a world that differs by {', '.join(kinds)}:{G.diff(y, x)}", world=k)
                res.log.append((k, kinds))
                return
        res.states.add(digest((ref["texts"], kinds)))
        if something:
            res.nontrivial = True
    res.log.append(digest(ref["texts"]))
