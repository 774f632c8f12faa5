"""P01: the PImpl publisher updates its source and header safely and consistently."""
import os

from sim import core
from sim.core import describe_exc, digest, get, put, tree
from sim.env import Env
from props import outputs as O
from props.f03 import MALFORMED, malformed_text

LEVEL = "fault_enumeration"
REAL = ["srcmlcpp_tools.pimpl_my_class", "codemanip.code_utils (region rewriting, file replacement)", "srcmlcpp parser, srcml native library", "CPython file objects, on a real scratch directory"]
STUBS = ["fault decisions of every file operation (sim/fs.py)", "process death and power loss", "locale", "clock"]
RULE = ("histories of class edits and publications into a source and a header file, either of which may be missing or have malformed markers; directed runs enumerate every malformation on both files and every fault kind at each of the first operations; "
        "after every step both files are compared byte for byte with old and new content from an independent region model; non-trivial: a fault fired, a file was rejected, or an unchanged second run happened")
STATE_MEASURE = "digest of (operation log, outcome, fault kinds) of one publication"
BUDGET = {"quick": 32, "thorough": 500}
MUST_HIT = ["completed", "raised", "killed", "rejected", "unchanged-rerun"]


def gen_class(rng, i=0) -> str:
    kw = rng.choice(["class", "struct"])
    suffix = rng.choice(["PImpl", "Impl", "_impl", "_pimpl", "Pimpl"])
    name = f"My{i}{suffix}"
    out = [f"// Doc of {name} {rng.choice(['é ü', '', '日本'])}", f"{kw} {name}", "{"]
    if kw == "class" or rng.random() < 0.3:
        out.append("public:")
    if rng.random() < 0.7:
        out.append(f"    {name}({rng.choice(['', 'int a', 'const std::string& someVar, int b = 2'])}) {{ /* code */ }}")
    for k in range(rng.randint(0, 4)):
        if rng.random() < 0.5:
            out += ["", f"    // {rng.choice(['Some method', 'é commenté', 'more'])} {k}"]
        st = rng.choice(["", "", "static ", "inline "])
        cst = "" if st else rng.choice(["", " const"])
        out.append(f"    {st}{rng.choice(['bool', 'void', 'std::vector<int>', 'double'])} Method{k}({rng.choice(['', 'int x', 'const std::string& s, double y = 1.'])}){cst} {{ return {k}; }}{rng.choice(['', '  // eol é'])}")
    if rng.random() < 0.5:
        out.append(f"    ~{name}() {{ }}")
    if rng.random() < 0.7:
        out += ["private:", f"    bool Secret{rng.randint(0, 9)}() {{ }}", "    int mSecret;"]
    return "\n".join(out) + "\n};\n"


def gen_pfile(rng, name, role, top="") -> dict:
    f = O.gen_file(rng, name, [role], multi=False)
    # hand-written text which does not upset the C++ parser
    for s in f["segs"]:
        if "t" in s:
            eol = "\r\n" if "\r\n" in s["t"] else "\n"
            s["t"] = "".join(rng.choice(["#include <x.h>", "// hand é", "int g%d;" % rng.randint(0, 99), "", "   ", "/* 日本 */", "// tail  ", "// e\u0301 ﬁ decomposed", "// line\u2028sep"]) + eol for _ in range(rng.randint(0, 3)))
        else:
            s["old"] = rng.choice(["", "int old1;\n", "int old1;\n\n// é\n", "int o;\r\n"])
    f["segs"] = [{"t": top}] * bool(top) + [s for s in f["segs"] if "r" in s or s["t"]]
    if f["segs"] and "t" in f["segs"][-1] and rng.random() < 0.3:
        f["segs"][-1]["t"] += "// end without newline"
    return f


def break_it(f, kind, eol="\n"):
    role = f["roles"][0]
    if kind in ("absent", "dir"):
        f[kind] = True
        f["link"] = False
    else:
        text = malformed_text(kind, role, "    ", user="int user; // é" + eol, eol=eol)
        f["segs"] = [s for s in f["segs"][:1] if "t" in s] + [{"t": text}]
    f["broken"] = [role]


def base_plan(rng):
    cpp = gen_pfile(rng, "my_class.cpp", "pglue", top='#include "my_class.h"\n')
    hd = gen_pfile(rng, "my_class.h", "phead")
    return dict(files=[cpp, hd], cls=gen_class(rng), explicit=rng.random() < 0.5, env=O.gen_env(rng), steps=[])


def directed(tier):
    import random

    out = []
    for which in (0, 1):
        for kind in MALFORMED:
            for eol in ("\n", "\r\n"):
                p = base_plan(random.Random(which))
                for f in p["files"]:
                    f["link"] = False
                break_it(p["files"][which], kind, eol)
                p["steps"] = [dict(op="run", faults=[])]
                out.append(p)
    for op in ("write", "rename", "open_w", "fsync", "close", "read", "open_r", "chmod", "truncate", "unlink"):
        for k in range(4 if tier == "quick" else 10):
            for kind in O.FAULT_KINDS:
                if kind in ("short", "partial", "crash_mid", "power_mid") and op not in ("write", "read"):
                    continue
                p = base_plan(random.Random(9))
                p["env"]["bufsize"] = 64
                p["steps"] = [dict(op="run", faults=[dict(kind=kind, op=op, k=k, e=k)]), dict(op="run", faults=[]), dict(op="run", faults=[])]
                out.append(p)
    return out


def gen(rng, tier):
    p = base_plan(rng)
    x = rng.random()
    if x < 0.35:
        for f in rng.sample(p["files"], rng.choice([1, 1, 2])):
            break_it(f, rng.choice(MALFORMED), rng.choice(["\n", "\n", "\r\n"]))
    if rng.random() < 0.06:
        p["cls"] = rng.choice(["int no_class_here;\n", "struct NoSuffix { void f(); };\n"])
    if rng.random() < 0.3:
        ext = rng.choice([".cc", ".cxx", ".C", ".c++"])
        p["files"][0]["name"] = "my_class" + ext
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.3:
            p["steps"].append(dict(op="edit", cls=gen_class(rng, rng.randint(0, 3))))
        elif rng.random() < 0.3:
            # (the user takes back an older version of a file, or copies files around)
            p["steps"].append(dict(op="restore", i=rng.randint(0, 1), v=rng.randint(0, 9), mtime=rng.choice([0, 900_000_000, 1_000_000_000, 2_000_000_000, 4_000_000_000])))
        else:
            s = dict(op="run", faults=O.gen_faults(rng, 1, 0.55))
            if rng.random() < 0.2:
                s["locale"] = rng.choice(["ascii", "latin-1", "cp1252"])
            p["steps"].append(s)
    return p


def life_ref(ctx, code):
    import importlib

    P = importlib.import_module("srcmlcpp_tools.pimpl_my_class.pimpl_my_class")

    Env(ctx, dict(seed=0)).install()
    try:
        r = P.pimpl_my_code(code)
    except BaseException as e:
        return dict(ok=False, exc=describe_exc(e))
    if r is None:
        return dict(ok=True, none=True)
    return dict(ok=True, none=False, pglue=r.glue_code, phead=r.header_code)


def life_run(ctx, plan, step):
    spec = dict(plan["env"])
    for k in ("faults", "locale"):
        if k in step:
            spec[k] = step[k]
    import importlib

    P = importlib.import_module("srcmlcpp_tools.pimpl_my_class.pimpl_my_class")

    env = Env(ctx, spec).install()
    out = dict(ok=True)
    try:
        P.pimpl_my_file(plan["files"][0]["name"], plan["files"][1]["name"] if plan["explicit"] else None)
    except BaseException as e:
        out = dict(ok=False, exc=describe_exc(e))
    rep = env.report()
    rep["outcome"] = out
    return rep


def run(plan, res):
    os.makedirs("tmp")
    files = plan["files"]
    segs = [f["segs"] for f in files]
    cls = plan["cls"]

    def target(f):
        return f["name"] + ".real" if f.get("link") else f["name"]

    def full(i):
        """the class definition is hand-written text at the top of the source file"""
        return [{"t": cls}] + segs[i] if i == 0 else segs[i]

    def store(i):
        f = files[i]
        if f.get("absent"):
            return
        if f.get("dir"):
            os.makedirs(f["name"], exist_ok=True)
            return
        put(target(f), O.render(full(i)), f["mode"])
        if f.get("link") and not os.path.lexists(f["name"]):
            os.symlink(os.path.basename(target(f)), f["name"])

    store(0)
    store(1)
    bad = any(f.get("broken") for f in files)
    leftovers: set = set()
    versions = [[list(s)] for s in segs]
    for n, step in enumerate(plan["steps"]):
        res.steps += 1
        if step["op"] == "edit":
            cls = step["cls"]
            store(0)
            continue
        if step["op"] == "restore":
            i = step["i"]
            segs[i] = versions[i][step["v"] % len(versions[i])]
            store(i)
            if os.path.isfile(target(files[i])):
                os.utime(target(files[i]), (step["mtime"], step["mtime"]))
            res.probes["restored"] += 1
            continue
        src = get(target(files[0])) if not files[0].get("dir") else None
        ref = dict(ok=False, exc="no source file")
        if src is not None:
            st, ref = core.life(life_ref, src.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n"))
            if st != "ok":
                res.violate("hang", f"step {n}: reference did not end ({st})")
                return
        before = tree(".")
        st, rep = core.life(life_run, plan, step)
        res.lives += 1
        if st in ("hang", "died"):
            res.violate("hang", f"step {n}: the publication never ends, or died ({st})")
            return
        crashed = st == "crash"
        ok = not crashed and rep["outcome"]["ok"]
        outcome = "killed" if crashed else "ok" if ok else rep["outcome"]["exc"]
        res.faults.update(rep["fired"])
        res.sim_time += rep["sim_time"]
        res.log.append((n, "publish", core.stable_name(outcome), tuple(sorted(rep["fired"].items())), len(rep["oplog"])))
        res.states.add(digest((rep["oplog"], outcome, sorted(rep["fired"]))))
        res.probes["killed" if crashed else "completed" if ok else "raised"] += 1
        if rep["fired"]:
            res.nontrivial = True
        if rep["escapes"]:
            res.violate("escape", f"step {n}: file operation outside of the two files: {rep['escapes'][:3]}")
        after = tree(".")
        none = ref.get("none", False)
        gens = bool(ref["ok"]) and not none
        if ok and bad and not (none and all(not f.get("absent") and not f.get("dir") for f in files)):
            res.violate("success-despite-bad-file", f"step {n}: reported success although {[f['name'] for f in files if f.get('broken')]} is missing or malformed")
        if ok and not ref["ok"]:
            res.violate("success-despite-failure", f"step {n}: reported success although {ref['exc']}")
        harmful = any(not k.startswith("short:") for k in rep["fired"])
        if not ok and not crashed and not bad and ref["ok"] and not harmful:
            res.violate("spurious-failure", f"step {n}: {outcome}; faults {rep['fired']}")
        same = True
        for i, f in enumerate(files):
            if f.get("absent"):
                if f["name"] in after:
                    res.violate("created-missing-output", f"step {n}: {f['name']} was created")
                continue
            if f.get("dir"):
                continue
            e = after.get(target(f))
            if e is None or e[0] != "f":
                res.violate("output-lost", f"step {n}: {f['name']} disappeared")
                continue
            if f.get("link") and after.get(f["name"], ("?",))[0] != "l":
                res.violate("symlink-replaced", f"step {n}: {f['name']} is not a symbolic link any more")
                continue
            if e[2] != f["mode"]:
                res.violate("mode-changed", f"step {n}: permissions of {f['name']} changed to {oct(e[2])}")
            old = O.render(full(i))
            role = f["roles"][0]
            new = O.render(full(i), {role: ref[role]}) if gens and not bad else old
            if e[1] not in (old, new):
                res.violate("bad-content", f"step {n} ({outcome}; faults {rep['fired']}): {f['name']} holds {e[1][:300]!r}, neither old nor new {new[:300]!r}" if not bad else
                            f"step {n} ({outcome}): {f['name']} was modified although a file is missing or malformed: {e[1][:200]!r}")
                continue
            if ok and e[1] != new:
                res.violate("stale-after-success", f"step {n}: reported success but {f['name']} is stale; faults {rep['fired']}")
            if old != new:
                same = False
            if e[1] == new and gens and not bad:
                segs[i] = O.with_versions(segs[i], {role: ref[role]})
                versions[i].append(segs[i])
        if bad:
            res.probes["rejected"] += 1
            res.nontrivial = True
        elif ok and same:
            res.probes["unchanged-rerun"] += 1
            res.nontrivial = True
        outs = {target(f) for f in files} | {f["name"] for f in files}
        for p, e in before.items():
            if p not in outs and p not in leftovers and after.get(p) != e:
                res.violate("file-changed", f"step {n}: {p} was changed or removed")
        litter = [p for p in after if p not in before]
        leftovers.update(litter)
        if litter and not (crashed or O.cleanup_failed(rep["fired"])):
            res.violate("litter", f"step {n}: left behind {[core.stable_name(x) for x in litter]}; faults {rep['fired']}")
        if res.violations:
            return
