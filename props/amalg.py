"""Shared parts of the amalgamation properties: include graphs on the simulated disk and an independent include model."""
from __future__ import annotations
import os
import re

from sim import core
from sim.core import describe_exc, digest, put, tree
from sim.env import Env

REAL = ["codemanip.amalgamated_header", "codemanip.code_utils (file replacement)", "CPython file objects, on a real scratch directory"]
STUBS = ["fault decisions of every file operation (sim/fs.py)", "process death and power loss", "locale", "clock"]
EXTERNAL = ["<vector>", "<string>", "<map>", "<cmath>", "<lib_extra/x.h>", '"third/party.h"', "<vector.h>", "<a b.h>", "<sys/types.h>", "<net/types.h>",
            '"sys/types.h"', "<third/party.h>", '"x.h"', "<x.h>", "<Vector>", '"third/../third/party.h"', "<lib_extra/y/x.h>"]
TEXTS = ["", "   ", "}", "#endif", "// #include commented out", "#pragma pack(push, 1)", "#pragma pack(pop)", "#pragma GCC diagnostic push", "#define GUARD_H", "#ifndef GUARD_H", "#if defined(A) && \\", "    #else", "#undef X", "# pragma region a",
         "/* block", "   block end */", "//////////////////// sep", "/// doc", "namespace lib { // } ", "#error no", "#line 3", "#import x", "int include = 1; // include", "const char* s = \"#include\";", "extern \"C\" {", "once", "// pragma once ?", "// no #pragma once here", "int x; // #pragma once", "#pragma once_more", "/* #pragma once */",
         "#define INC \"a.h\"", "#include_next", "includes", "#if __has_include(<vector>)",
         "// page\x0cbreak", "\x0cint ff;", "// next\x85line", "// line\u2028separator \u2029 paragraph", "// v\x0btab \x1cfs \x1d \x1e", "// e\u0301 ﬁ \u1112\u1161 decomposed", "// zero\u200bwidth \u00a0 \u3000 x", "// \U0001f600 \uffff"]
ONCE = ["#pragma once", "#pragma once", "#pragma once", "# pragma once", "#pragma  once // guard", "  #pragma once"]
FORMS = ["#include ", "#include ", "#include ", "#include ", "# include ", "#\tinclude\t", "#include", "#include  "]
TRAILS = ["", "", "", "", " // why", "  /* c */", "\t", " // see <other> \"thing\""]


def gen_graph(rng, nmax=7) -> dict:
    """files: path relative to the base directory -> items; an item is {"t": text} {"inc": written name, "angle": bool} {"ext": name}"""
    prefix = rng.choice(["lib/", "lib/", "", "my lib/"])
    angle_local = prefix != "" and rng.random() < 0.35
    subdirs = rng.sample(["inc", "src/inc", "other dir", "inc2"], rng.randint(0, 3))
    base = rng.choice(["base", "ba se", "base", "é"])
    roots = [""] + subdirs
    n = rng.randint(1, nmax)
    names = []
    for i in range(n):
        if names and rng.random() < 0.15:  # a name which differs in case only
            d, b = os.path.split(rng.choice(names))
            other = os.path.join(d, b.swapcase() if rng.random() < 0.5 else b.capitalize())
            if other not in names:
                names.append(other)
                continue
        names.append(prefix + rng.choice(["", "", "sub/", "sub/deep/"]) + rng.choice([f"h{i}.h", f"h{i}.hpp", f"é{i}.h", f"h {i}.h"]))
    files: dict = {}
    for i, nm in enumerate(names):
        r = rng.choice(roots)
        # sometimes the same name exists in several search directories: the first one wins
        places = {r} | ({rng.choice(roots)} if rng.random() < 0.25 else set())
        for k, place in enumerate(sorted(places)):
            items = []
            tok = f"t{i}p{k}"
            if rng.random() < 0.7:
                items.append({"t": rng.choice(ONCE)})
            for j in range(rng.randint(0, 6)):
                x = rng.random()
                if x < 0.4:
                    items.append({"t": rng.choice([f"int {tok}_{j};", f"    void {tok}_{j}(); // é 日本", f"// {tok}_{j} comment   ", f"struct {tok}_{j} {{ int a; }};", f"\tint {tok}_{j};\t"])})
                elif x < 0.5:
                    items.append({"t": rng.choice(TEXTS)})
                elif x < 0.75:
                    target = rng.choice(names)
                    written = target
                    if rng.random() < 0.2 and prefix:
                        d, b = target[: len(prefix)], target[len(prefix):]
                        written = d + rng.choice(["./", "sub/../"]) + b
                    items.append({"inc": written, "angle": angle_local and rng.random() < 0.5, "form": rng.choice(FORMS), "trail": rng.choice(TRAILS)})
                else:
                    items.append({"ext": rng.choice(EXTERNAL), "form": rng.choice(FORMS), "trail": rng.choice(TRAILS)})
            files[os.path.normpath(os.path.join(place, nm))] = dict(items=items, eol="\r\n" if rng.random() < 0.15 else "\n", noeol=rng.random() < 0.25,
                                                                    pre=rng.choice(["", "", "  "]), bom=rng.random() < 0.1)
    if prefix and not any(f.startswith(tuple(os.path.normpath(os.path.join(r, prefix, "sub")) for r in roots)) for f in files):
        pass
    g = dict(base=base, prefix=prefix, subdirs=subdirs, abs_subdirs=rng.random() < 0.2, angle_local=angle_local, main=names[0], files=files,
             main_abs=rng.random() < 0.25, abs_base=rng.random() < 0.5, dst=rng.choice(["out.h", "all in one.h", "gen/out.h", "é.h"]),
             links=[])
    if rng.random() < 0.15 and len(names) > 1:
        # a second name for the same file
        a = rng.choice(sorted(files))
        link = os.path.normpath(os.path.join(rng.choice(roots), prefix, "linked.h"))
        if link not in files:
            g["links"].append([link, a])
            for f in rng.sample(sorted(files), min(2, len(files))):
                files[f]["items"].append({"inc": prefix + "linked.h", "angle": False})
    return g


def is_local(g, name, angle) -> bool:
    if not angle:
        return name.startswith(g["prefix"])
    return g["angle_local"] and name.startswith(g["prefix"])


def norm_graph(g) -> dict:
    """external includes must not look local"""
    for f in g["files"].values():
        for it in f["items"]:
            if "ext" in it:
                n, angle = it["ext"][1:-1], it["ext"][0] == "<"
                if is_local(g, n, angle):
                    it["ext"] = "<vector>" if not g["angle_local"] or g["prefix"] else "<vector>"
    return g


def file_text(f) -> str:
    lines = []
    for it in f["items"]:
        if "t" in it:
            lines.append(it["t"])
        else:
            lines.append(include_line(f, it))
    s = f["eol"].join(lines)
    if lines and not f["noeol"]:
        s += f["eol"]
    return ("\ufeff" if f.get("bom") else "") + s


def target(it) -> str:
    return it["ext"] if "ext" in it else f"<{it['inc']}>" if it.get("angle") else f'"{it["inc"]}"'


def include_line(f, it) -> str:
    return f["pre"] + it.get("form", "#include ") + target(it) + it.get("trail", "")


def lay_out(g) -> None:
    for d in {os.path.join(g["base"], r) for r in [""] + g["subdirs"]}:
        os.makedirs(d, exist_ok=True)
        if g["prefix"]:
            os.makedirs(os.path.join(d, g["prefix"], "sub"), exist_ok=True)
    for p, f in g["files"].items():
        put(os.path.join(g["base"], p), file_text(f).encode("utf-8"))
    for link, target in g["links"]:
        lp = os.path.join(g["base"], link)
        os.makedirs(os.path.dirname(lp), exist_ok=True)
        if not os.path.lexists(lp):
            os.symlink(os.path.relpath(os.path.join(g["base"], target), os.path.dirname(lp)), lp)
    os.makedirs(os.path.dirname(g["dst"]) or ".", exist_ok=True)


def resolve(g, name):
    for r in [""] + g["subdirs"]:
        p = os.path.join(g["base"], r, name)
        if os.path.isfile(p):
            return os.path.realpath(p)
    return None


def model(g):
    """-> ("ok", [significant lines in order]) or ("missing", name): what the statement asks for, without decorations"""
    by_real = {os.path.realpath(os.path.join(g["base"], p)): f for p, f in g["files"].items()}
    done, ext, out = set(), set(), []

    class Missing(Exception):
        pass

    def visit(name):
        p = resolve(g, name)
        if p is None:
            raise Missing(name)
        if p in done:
            return
        done.add(p)
        f = by_real[p]
        for it in f["items"]:
            if "t" in it:
                t = it["t"].rstrip()
                if t and not re.match(r"\s*#\s*pragma\s+once\b", t):
                    out.append(t)
            elif "inc" in it and is_local(g, it["inc"], it.get("angle")):
                visit(it["inc"])
            else:
                e = (target(it) + it.get("trail", "")).strip()
                if e not in ext:
                    ext.add(e)
                    out.append(include_line(f, it).rstrip())

    try:
        visit(g["main"])
    except Missing as e:
        return "missing", str(e), len(done)
    return "ok", out, len(done)


def significant(content: str) -> list:
    """Lines of an amalgamation, without the tool's own decorations and without blank lines"""
    out = []
    lines = content.split("\n")
    for i, x in enumerate(lines):
        x = x.lstrip("\ufeff")
        if not x.strip():
            continue
        if i == 0 and x.startswith("// THIS FILE WAS GENERATED"):
            continue
        if len(x) > 60 and set(x) == {"/"}:
            continue
        if x.startswith("//      ") and x.endswith("//"):
            continue
        out.append(x)
    return out


def make_options(g):
    from codemanip import amalgamated_header as ah

    o = ah.AmalgamationOptions()
    o.base_dir = os.path.abspath(g["base"]) if g["abs_base"] else g["base"]
    o.local_includes_startwith = g["prefix"]
    o.include_subdirs = [os.path.abspath(os.path.join(g["base"], s)) if g["abs_subdirs"] else s for s in g["subdirs"]]
    o.main_header_file = g["main"]
    if g["main_abs"]:
        p = None
        for r in [""] + g["subdirs"]:
            q = os.path.join(g["base"], r, g["main"])
            if os.path.isfile(q):
                p = os.path.abspath(q)
                break
        o.main_header_file = p or g["main"]
    o.dst_amalgamated_header_file = g["dst"]
    o.only_quoted_includes_are_local = not g["angle_local"]
    return o


def life_amalg(ctx, g, step, env):
    spec = dict(env)
    for k in ("faults", "locale", "pid"):
        if k in step:
            spec[k] = step[k]
    from codemanip import amalgamated_header as ah

    o = make_options(g)
    e = Env(ctx, spec)
    e.install()
    out = dict(ok=True, content=None)
    try:
        if step.get("api") == "content":
            out["content"] = ah.amalgamation_content(o)
        else:
            ah.write_amalgamate_header_file(o)
    except BaseException as x:
        out = dict(ok=False, exc=describe_exc(x), type=type(x).__name__)
    rep = e.report()
    rep["outcome"] = out
    return rep


def run_life(g, step, env, res, n):
    st, rep = core.life(life_amalg, g, step, env)
    res.lives += 1
    if st in ("hang", "died"):
        res.violate("hang", f"step {n}: the amalgamation never ends, or died ({st})")
        return None, None
    res.faults.update(rep["fired"])
    res.sim_time += rep["sim_time"]
    crashed = st == "crash"
    outcome = "killed" if crashed else "ok" if rep["outcome"]["ok"] else rep["outcome"]["exc"]
    res.log.append((n, "amalgamate", core.stable_name(outcome), tuple(sorted(rep["fired"].items())), len(rep["oplog"])))
    res.states.add(digest((rep["oplog"], outcome, sorted(rep["fired"]))))
    if rep["fired"]:
        res.nontrivial = True
    if crashed:
        res.probes["killed"] += 1
    elif rep["outcome"]["ok"]:
        res.probes["completed" + ("-despite-faults" if rep["fired"] else "")] += 1
    else:
        res.probes["raised"] += 1
    if rep["escapes"]:
        res.violate("escape", f"step {n}: file operation outside of the scratch directory: {rep['escapes'][:3]}")
    return rep, crashed


def harmful(rep) -> bool:
    return any(not k.startswith(("short:", "clock-jump")) for k in rep["fired"])


_ = tree
