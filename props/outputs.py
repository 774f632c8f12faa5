"""Shared engine of the output-file properties (F01-F07): histories of user edits and generator runs over real files of
a simulated disk, checked after every step against an independent model of marked regions."""
from __future__ import annotations
import itertools
import os
import re

from sim import core
from sim.core import Result, describe_exc, digest, get, put, tree
from sim.env import Env
from sim.headers import gen_options, header, make_options, NONASCII, SMALL, KINDS

TOKENS = {"pydef": "litgen_pydef", "stub": "litgen_stub", "glue": "litgen_glue_code",
          "pglue": "pimpl_glue_code", "phead": "pimpl_header_code"}
ROLES = ("pydef", "stub", "glue")
FAULT_OPS = ["open_r", "read", "open_w", "write", "fsync", "close", "rename", "chmod", "unlink", "truncate"]
FAULT_KINDS = ["error", "short", "partial", "crash_before", "crash_mid", "crash_after", "power_before", "power_mid",
               "power_after", "interrupt", "full", "dead"]
REAL = ["litgen.litgen_generator", "codemanip.code_utils (region rewriting, file replacement)", "header parsing and code generation",
        "srcml native library", "CPython file objects, on a real scratch directory"]
STUBS = ["fault decisions of every file operation (sim/fs.py)", "child processes (sim/proc.py; black itself is the real one, called in process)",
         "clock", "locale", "process death (os._exit at the fault point) and power loss (loss of unsynced data)"]


# ------------------------------------------------------------------ file model
def open_line(s):
    return f"{s['indent']}{s['pre']}<{TOKENS[s['r']]}>{s['suf']}{s['eol']}"


def close_line(s, last):
    return f"{s['indent2']}{s['pre']}</{TOKENS[s['r']]}>{s['suf2']}" + ("" if last and s.get("noeol") else s["eol"])


def model_region(code: str, indent: str) -> str:
    out = []
    for line in code.split("\n"):
        out.append("" if line == "" else indent + line.rstrip())
    return "\n".join(out) + "\n"


def render(segs, versions=None) -> bytes:
    """versions: role -> generated code (absent: the region keeps its current content)"""
    out = []
    for i, s in enumerate(segs):
        if "t" in s:
            out.append(s["t"].encode("utf-8", "surrogateescape"))
            continue
        last = i == len(segs) - 1
        body = s["old"]
        if versions is not None and versions.get(s["r"]) is not None:
            body = model_region(versions[s["r"]], s["indent"])
        out.append((open_line(s) + body + close_line(s, last)).encode("utf-8", "surrogateescape"))
    return b"".join(out)


def with_versions(segs, versions):
    r = []
    for s in segs:
        if "r" in s and versions.get(s["r"]) is not None:
            s = dict(s, old=model_region(versions[s["r"]], s["indent"]))
        r.append(s)
    return r


def outside(segs) -> list:
    return [s["t"] if "t" in s else (open_line(s), close_line(s, i == len(segs) - 1)) for i, s in enumerate(segs)]


def same_outside(data: bytes, segs) -> bool:
    """Is everything outside of the regions intact, whatever the regions hold?"""
    pos = 0
    pieces = []
    cur = b""
    for i, s in enumerate(segs):
        if "t" in s:
            cur += s["t"].encode("utf-8", "surrogateescape")
        else:
            cur += open_line(s).encode("utf-8", "surrogateescape")
            pieces.append(cur)
            cur = close_line(s, i == len(segs) - 1).encode("utf-8", "surrogateescape")
    pieces.append(cur)
    if not data.startswith(pieces[0]):
        return False
    pos = len(pieces[0])
    for p in pieces[1:-1]:
        k = data.find(p, pos)
        if k < 0:
            return False
        pos = k + len(p)
    if len(pieces) == 1:
        return data == pieces[0]
    return data.endswith(pieces[-1]) and len(data) - len(pieces[-1]) >= pos


# ------------------------------------------------------------------ plan generation
TEXT_LINES = ["#include <x.h>", "    void f() {", "\tint a;", "}", "", "   ", "// hand written é", "# 日本語 comment", "x = 1  ", "\x0cpage",
              "line\u2028sep", "lone\rcr", "null\x00byte", "<litgen>", "// <not_a_marker>", "litgen_pydef", "</ litgen_stub>", "tail\\", "\ufeffbom",
              "\x0bvt", "\x85nel", "e\u0301 A\u030a decomposed", "ﬁ ½ ① Å \u1112\u1161\u11ab compatible", "zero\u200bwidth\u00ad", "\U0001f600 \U00020000 \ue000 \uffff", "nbsp\u00a0 \u3000", "\x1cfs", "'''", "py::module_ m;",
              "// (up to /litgen_pydef> or /litgen_stub>, /litgen_glue_code>)", "litgen_stub>", "<litgen_glue_code", "</litgen_pydef", "< litgen_stub >", "<LITGEN_PYDEF>", "</Litgen_Stub>", "<litgen_stub/>",
              "pimpl_glue_code> <pimpl_header_code", "<litgen_pydef_x>", "x<<litgen_pydef x", "&lt;litgen_stub&gt;"]


def gen_text(rng, eol, nmax=5, first=False, last=False) -> str:
    lines = [rng.choice(TEXT_LINES) for _ in range(rng.randint(0, nmax))]
    t = "".join(line + (eol if rng.random() < 0.9 else rng.choice(["\n", "\r\n"])) for line in lines)
    if first and rng.random() < 0.1:
        t = "\ufeff" + t if t else t
    if last and rng.random() < 0.4:
        t += rng.choice(["end without newline", "}", "x é", "\t"])
    return t


def gen_region(rng, role, eol) -> dict:
    py = role == "stub"
    old = "".join(rng.choice(["old line", "    old()", "", "é vieux", "def x(): ..."]) + rng.choice(["\n", eol]) for _ in range(rng.randint(0, 4)))
    ind = rng.choice(["", "", "    ", "\t", "  \t", "        "])
    return dict(r=role, indent=ind, indent2=rng.choice([ind, ind, "", "  "]), pre=rng.choice(["# ", "#"]) if py else rng.choice(["// ", "//"]),
                suf=rng.choice(["", "  // Autogenerated code below! Do not edit!", " é", "   "]), suf2=rng.choice(["", " // Autogenerated code end", "  "]),
                eol=eol, old=old, noeol=rng.random() < 0.15)


def gen_file(rng, name, roles, multi=True) -> dict:
    eol = "\r\n" if rng.random() < 0.25 else "\n"
    seq = list(roles)
    rng.shuffle(seq)
    if multi and rng.random() < 0.2:
        r = rng.choice(roles)
        seq += [r] * rng.choice([1, 1, 2, 3])
    segs = []
    for i, r in enumerate(seq):
        t = gen_text(rng, eol, first=(i == 0))
        if t and not t.endswith("\n"):
            t += "\n"
        if t:
            segs.append({"t": t})
        segs.append(gen_region(rng, r, eol))
    t = gen_text(rng, eol, last=True)
    if t:
        segs.append({"t": t})
    else:
        pass
    for s in segs[:-1]:
        s.pop("noeol", None)
    return dict(name=name, roles=list(roles), segs=segs, mode=rng.choice([0o644, 0o644, 0o600, 0o755, 0o664]), link=rng.random() < 0.12)


def gen_layout(rng, names=None) -> tuple:
    sep = rng.random() < 0.45
    base = rng.choice(["b", "bindings", "my lib", "é", "a.b"])
    n = names or (f"{base}.cpp", f"{base}.pyi", f"{base}_glue.h")
    if rng.random() < 0.3:
        n = ("out/" + n[0], "py/" + n[1], "out/" + n[2])
    files = [gen_file(rng, n[0], ["pydef"] if sep else ["pydef", "glue"]), gen_file(rng, n[1], ["stub"])]
    if sep:
        files.append(gen_file(rng, n[2], ["glue"]))
    return files, rng.choice(["explicit", "empty"]) if not sep else "explicit"


def gen_fault(rng, nheaders=1) -> dict:
    kind = rng.choice(FAULT_KINDS)
    f = {"kind": kind, "e": rng.randint(0, 5)}
    if rng.random() < 0.5:
        f["op"] = rng.choice(["write"] if kind in ("short", "partial", "crash_mid", "power_mid") and rng.random() < 0.7 else FAULT_OPS[:9])
        f["k"] = min(int(rng.expovariate(0.45)), 14)
    else:
        f["at"] = rng.randint(0, 28 * nheaders)
    return f


def gen_faults(rng, nheaders, rate=1.0) -> list:
    if rng.random() > rate:
        return []
    return [gen_fault(rng, nheaders) for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def gen_env(rng) -> dict:
    return dict(bufsize=rng.choice([8192, 8192, 512, 64, 16]), seed=rng.randint(0, 1 << 30), pid=rng.choice([31337, 31337, 41001]))


CODES = ["", "\n", "x", "a\n  b\n\n    c\n", "é = 'ü'  \n\t日本\n", "trail   \n\n\n", "\n\nlead", "q\x0cw\u2028e\n", "l1\nl2\nl3", "    \n  \n",
         "class A:\n    pass\n", "\tindented\n\t\tmore\n"]


def gen_headers_pool(rng, n, kinds=None, tag="h") -> list:
    return [dict(name=f"{tag}{i}.h" if rng.random() < 0.8 else f"inc/{tag}{i}.h", text=header(rng, f"{tag}{i}x", 2, kinds or (SMALL if rng.random() < 0.7 else KINDS)))
            for i in range(n)]


# ------------------------------------------------------------------ lives
def build_options(plan, step):
    extra = {}
    if plan.get("encoding"):
        extra["encoding"] = plan["encoding"]
    if step.get("black"):
        extra["python_run_black_formatter"] = True
        extra["python_black_formatter_line_length"] = step.get("line_length", 88)
    post = step.get("post") or {}
    if post.get("pydef") is not None:
        extra["postprocess_pydef_function"] = lambda s, c=post["pydef"]: c
    if post.get("stub") is not None:
        extra["postprocess_stub_function"] = lambda s, c=post["stub"]: c
    for which in ("pydef", "stub"):
        if post.get(which + "_raise"):
            def boom(s, w=which):
                raise ValueError("user callback failed")
            extra[f"postprocess_{which}_function"] = boom
    o = make_options(plan["opts"], extra)
    if step.get("poison"):
        def pre(code, p=step["poison"]):
            if p in code:
                raise ValueError("user preprocess function failed")
            return code
        o.srcmlcpp_options.code_preprocess_function = pre
    return o


def life_reference(ctx, plan, step):
    """What a single undisturbed in-memory generator gives for each prefix of the header list"""
    import litgen

    env = Env(ctx, dict(plan["env"]), handlers=None)
    env.install()
    # (a header in a declared encoding must give what the same header gives in UTF-8)
    o = build_options(dict(plan, encoding=None), step)
    omit = plan.get("omit", False)
    out = []
    g = litgen.LitgenGenerator(o, omit)
    for i, hi in enumerate(step["headers"]):
        h = plan["headers"][hi]
        try:
            if h.get("missing") or h.get("bad_bytes") or h.get("dangling"):
                raise FileNotFoundError(h["name"])
            text = h["text"].replace("\r\n", "\n").replace("\r", "\n")
            g.process_cpp_code(text, h["name"])
            codes = dict(pydef=g.pydef_code(), stub=g.stub_code(), glue=g.glue_code())
        except Exception as e:
            return dict(versions=out, fails=i, exc=describe_exc(e), state_escapes=env.fs.escapes)
        if step.get("black"):
            codes["black"] = None
        out.append(codes)
    return dict(versions=out, fails=None)


def black_of(text: str, line_length: int):
    import black

    try:
        return black.format_file_contents(text, fast=True, mode=black.Mode(is_pyi=True, line_length=line_length, target_versions={black.TargetVersion.PY310}))
    except black.NothingChanged:
        return text
    except Exception:
        return None


def life_gen(ctx, plan, step):
    spec = dict(plan["env"])
    for k in ("faults", "fates", "default_fate", "locale", "environ", "pid", "clock_jumps"):
        if k in step:
            spec[k] = step[k]
    env = Env(ctx, spec)
    import litgen
    from litgen import litgen_generator

    o = build_options(plan, step)
    files = {r: f["name"] for f in plan["files"] for r in f["roles"]}
    glue = files.get("glue", "")
    if glue == files.get("pydef") and plan["glue_arg"] == "empty":
        glue = ""
    if plan.get("abs"):
        files = {r: os.path.abspath(p) for r, p in files.items()}
        glue = os.path.abspath(glue) if glue else ""
    env.install()
    outcome = dict(ok=True)
    try:
        names = [plan["headers"][i]["name"] for i in step["headers"]]
        api = step.get("api", "files")
        omit = plan.get("omit", False)
        if api == "files":
            litgen_generator.write_generated_code_for_files(o, names, files["pydef"], files["stub"], glue, omit)
        elif api == "file":
            litgen.write_generated_code_for_file(o, names[0], files["pydef"], files["stub"], glue, omit_boxed_types=omit)
        else:
            g = litgen.LitgenGenerator(o, omit)
            for n in names:
                g.process_cpp_file(n)
            g.write_generated_code(files["pydef"], files["stub"], glue)
    except BaseException as e:
        outcome = dict(ok=False, exc=describe_exc(e), type=type(e).__name__)
    rep = env.report()
    rep["outcome"] = outcome
    return rep


_REF_CACHE: dict = {}


def reference(plan, step):
    key = repr((plan["opts"], [plan["headers"][i] for i in step["headers"]], step.get("post"), step.get("black"), step.get("poison"),
                plan.get("omit"), plan.get("encoding")))
    if key not in _REF_CACHE:
        if len(_REF_CACHE) > 300:
            _REF_CACHE.clear()
        _REF_CACHE[key] = core.life(life_reference, plan, step)
    return _REF_CACHE[key]


# ------------------------------------------------------------------ engine
class Engine:
    def __init__(self, plan, res: Result, prop: str):
        self.plan, self.res, self.prop = plan, res, prop
        self.segs = [f["segs"] for f in plan["files"]]
        self.litter_ok: set = set()
        self.user_files: set = set()
        self.stop = False

    # -- disk set-up
    def target(self, f) -> str:
        return f["name"] + ".real" if f.get("link") else f["name"]

    def setup(self) -> None:
        os.mkdir("tmp")
        for f, segs in zip(self.plan["files"], self.segs):
            self.write_file(f, segs)
        for h in self.plan["headers"]:
            self.write_header(h)
        for name, data in self.plan.get("decoys", {}).items():
            put(name, data.encode())
        self.user_files = set(tree("."))

    def write_file(self, f, segs) -> None:
        if f.get("absent"):
            return
        if f.get("dir"):
            os.makedirs(f["name"], exist_ok=True)
            return
        put(self.target(f), render(segs), f.get("mode", 0o644))
        if f.get("link") and not os.path.lexists(f["name"]):
            os.makedirs(os.path.dirname(f["name"]) or ".", exist_ok=True)
            os.symlink(os.path.basename(self.target(f)), f["name"])

    def write_header(self, h) -> None:
        if h.get("missing"):
            return
        enc = self.plan.get("encoding") or "utf-8"
        if os.path.islink(h["name"]):
            os.remove(h["name"])
        if h.get("dangling"):
            os.makedirs(os.path.dirname(h["name"]) or ".", exist_ok=True)
            os.symlink("gone-" + os.path.basename(h["name"]), h["name"])
            return
        if h.get("bad_bytes"):
            put(h["name"], b"int f();\n// \xff\xfe\xfa\n")
            return
        put(h["name"], h["text"].encode(enc))

    # -- steps
    def run(self) -> None:
        self.setup()
        for n, step in enumerate(self.plan["steps"]):
            op = step["op"]
            self.res.steps += 1
            if op == "edit":
                self.edit(step)
            elif op == "edit_header":
                h = self.plan["headers"][step["i"] % len(self.plan["headers"])]
                h["text"] = step["text"]
                h.pop("missing", None)
                h.pop("dangling", None)
                self.write_header(h)
            elif op == "gen":
                if not self.plan["headers"]:
                    return
                step = dict(step, headers=[i for i in step["headers"] if i < len(self.plan["headers"])])
                self.gen(n, step)
            if self.stop or self.res.violations:
                return

    def edit(self, step) -> None:
        fi = step["file"] % len(self.plan["files"])
        f = self.plan["files"][fi]
        texts = [i for i, s in enumerate(self.segs[fi]) if "t" in s]
        if not texts or f.get("absent") or f.get("dir"):
            return
        i = texts[step["seg"] % len(texts)]
        t = step["text"]
        if i < len(self.segs[fi]) - 1 and t and not t.endswith("\n"):
            t += "\n"
        self.segs[fi] = [dict(s, t=t) if j == i else s for j, s in enumerate(self.segs[fi])]
        self.write_file(f, self.segs[fi])

    def versions_of(self, ref, step):
        """-> list of dict role -> list of acceptable texts, one per published version"""
        out = []
        for v in ref["versions"]:
            d = {"pydef": [v["pydef"]], "stub": [v["stub"]], "glue": [v["glue"]]}
            out.append(d)
        return out

    def gen(self, n, step) -> None:
        res, plan = self.res, self.plan
        st, ref = reference(plan, step)
        if st != "ok":
            res.violate("hang", f"step {n}: the reference generation did not end ({st})")
            return
        if ref.get("state_escapes"):
            res.violate("escape", f"step {n}: writes outside of the scratch directory: {ref['state_escapes'][:3]}")
            return
        versions = ref["versions"]
        before = tree(".")
        st, rep = core.life(life_gen, plan, step)
        res.lives += 1
        if st in ("hang", "died"):
            res.violate("hang", f"step {n}: the generation never ends, or died ({st})")
            return
        fired = rep["fired"]
        res.faults.update(fired)
        res.sim_time += rep["sim_time"]
        crashed = st == "crash"
        ok = (not crashed) and rep["outcome"]["ok"]
        outcome = "killed" if crashed else ("ok" if ok else rep["outcome"]["exc"])
        res.log.append((n, "gen", tuple(step["headers"]), core.stable_name(outcome), tuple(sorted(fired.items())), len(rep["oplog"])))
        res.states.add(digest((rep["oplog"], outcome if not crashed else "killed", sorted(fired))))
        if fired:
            res.nontrivial = True
        if crashed:
            res.probes["killed"] += 1
        elif not ok:
            res.probes["raised"] += 1
        else:
            res.probes["completed" + ("-despite-faults" if fired else "")] += 1
        if rep["escapes"]:
            res.violate("escape", f"step {n}: file operation outside of the outputs: {rep['escapes'][:3]}")
        after = tree(".")
        self.check_outputs(n, step, versions, ref, before, after, ok, crashed, rep)
        self.check_files_around(n, step, before, after, crashed, fired, ok)
        self.extra(n, step, ref, before, after, ok, crashed, rep)

    # -- oracles
    def extra(self, *a) -> None:
        pass

    def check_outputs(self, n, step, versions, ref, before, after, ok, crashed, rep) -> None:
        res, plan = self.res, self.plan
        broken = {r for f in plan["files"] for r in f["roles"] if f.get("absent") or f.get("dir") or r in f.get("broken", ())}
        nv = len(versions)
        whole = ref["fails"] is None
        if ok and broken and step["headers"]:
            res.violate("success-despite-bad-output", f"step {n}: the run reported success although the output of {sorted(broken)} is missing or malformed")
        if ok and not whole:
            res.violate("success-despite-failure", f"step {n}: the run reported success although header {ref['fails']} fails alone with {ref['exc']}")
        undecodable = any("\udc80" <= c <= "\udcff" for segs in self.segs for seg in segs for t in ("t", "old", "suf") for c in seg.get(t, ""))
        if not ok and not crashed and whole and not broken and not undecodable and not self.harmful(rep):
            exc = rep["outcome"]["exc"]
            res.violate("spurious-failure", f"step {n}: undisturbed run failed: {exc}; faults {rep['fired']}")
        for fi, f in enumerate(plan["files"]):
            if f.get("absent"):
                if f["name"] in after:
                    res.violate("created-missing-output", f"step {n}: missing output {f['name']} was created")
                continue
            if f.get("dir"):
                continue
            t = self.target(f)
            entry = after.get(os.path.normpath(t))
            if entry is None or entry[0] != "f":
                res.violate("output-lost", f"step {n}: output file {f['name']} disappeared (or is no regular file any more)")
                continue
            data = entry[1]
            segs = self.segs[fi]
            if f.get("link") and after.get(os.path.normpath(f["name"]), ("?",))[0] != "l":
                res.violate("symlink-replaced", f"step {n}: {f['name']} is not a symbolic link any more")
                continue
            if entry[2] != f.get("mode", 0o644):
                res.violate("mode-changed", f"step {n}: permissions of {f['name']} changed from {oct(f.get('mode', 0o644))} to {oct(entry[2])}")
            # acceptable contents
            per_role = []
            for r in f["roles"]:
                opts: list = [None]
                if r not in broken:
                    for v in versions:
                        opts.append(v[r])
                per_role.append(opts)
            acceptable = {}
            for combo in itertools.product(*[range(len(o)) for o in per_role]):
                vs = {r: per_role[i][c] for i, (r, c) in enumerate(zip(f["roles"], combo))}
                acceptable.setdefault(render(segs, vs), (combo, vs))
            if step.get("black") and f["roles"] == ["stub"] and "stub" not in broken:
                self.check_formatted(n, step, fi, f, [v["stub"] for v in versions], data, rep, ok, crashed)
                continue
            match = acceptable.get(data)
            if match is None:
                self.bad_content(n, step, f, segs, versions, data, rep, ok, crashed)
                continue
            combo, vs = match
            if ok and nv:
                want = render(segs, {r: versions[-1][r] for r in f["roles"]})
                if data != want:
                    res.violate("stale-after-success", f"step {n}: the run reported success, but {f['name']} holds versions {combo} of {nv} (0: not updated)")
            self.segs[fi] = with_versions(segs, vs)

    def bad_content(self, n, step, f, segs, versions, data, rep, ok, crashed) -> None:
        kind = "outside-text-changed" if not same_outside(data, segs) else "wrong-region"
        if len(data) == 0 and render(segs):
            kind = "emptied"
        self.res.violate("bad-content", f"step {n} ({'killed' if crashed else 'success' if ok else rep['outcome']['exc']}; faults {rep['fired']}): {f['name']}: {kind}: "
                         f"{len(data)} bytes {data[:160]!r}... is neither the old content nor a new one, e.g. {render(segs, {r: versions[-1][r] for r in f['roles']} if versions else None)[:160]!r}")

    def check_formatted(self, n, step, fi, f, stubs, data, rep, ok, crashed) -> None:
        """A stub file which an external formatter may rewrite after each publication. Every reachable content is enumerated:
        old, then for each header published in order, the raw file, then possibly what the formatter makes of exactly that file"""
        res = self.res
        ll = step.get("line_length", 88)
        states = {render(self.segs[fi]): (self.segs[fi], 0)}
        finals: list = []  # (raw, formatted or None)
        for k, v in enumerate(stubs, 1):
            new: dict = {}
            if k == len(stubs):
                finals = []
            for segs, _k in list(states.values()):
                if segs is None:
                    continue
                rs = with_versions(segs, {"stub": v})
                raw = render(rs)
                new.setdefault(raw, (rs, k))
                try:
                    b = black_of(raw.decode("utf-8"), ll)
                except UnicodeDecodeError:
                    b = None
                bb = b.encode("utf-8") if b is not None else None
                if bb is not None:
                    new.setdefault(bb, (resegment(bb, rs), k))
                if k == len(stubs):
                    finals.append((raw, bb))
            for d, x in new.items():
                states[d] = x
        if data not in states:
            self.bad_content(n, step, f, self.segs[fi], [{"stub": v} for v in stubs], data, rep, ok, crashed)
            return
        if ok and stubs:
            if not any(data in pair for pair in finals):
                res.violate("stale-after-success", f"step {n}: the run reported success, but {f['name']} holds version {states[data][1]} of {len(stubs)} (0: not updated)")
            calls = [c for c in rep["calls"] if c["argv"][0] == "black"]
            if not calls:
                res.violate("formatter-not-run", f"step {n}: the stub formatter was enabled but never run")
            else:
                last = calls[-1]["fate"]
                if last == "ok" and not any(data == (bb if bb is not None else raw) for raw, bb in finals):
                    res.violate("formatter-result-lost", f"step {n}: formatter succeeded but the stub is not its result: calls {rep['calls']}")
                unparsable = all(bb is None for raw, bb in finals)
                if (last != "ok" or unparsable) and not any(lv in ("WARNING", "ERROR") and ("black" in m.lower() or "format" in m.lower()) for lv, m in rep["logs"]):
                    res.violate("formatter-silent", f"step {n}: the formatter failed ({last}) without a warning; logs {rep['logs'][:3]}")
        segs = states[data][0]
        if segs is None:
            self.stop = True
        else:
            self.segs[fi] = segs

    def harmful(self, rep) -> bool:
        """Did a fault fire that may legitimately fail the run?"""
        return any(not k.startswith(("short:", "child-", "clock-jump")) for k in rep["fired"])

    def check_files_around(self, n, step, before, after, crashed, fired, ok) -> None:
        """Files other than the outputs: headers and decoys untouched, no litter from runs that completed"""
        res = self.res
        outs = {os.path.normpath(self.target(f)) for f in self.plan["files"]} | {os.path.normpath(f["name"]) for f in self.plan["files"]}
        for p, e in before.items():
            if p in outs:
                continue
            if p not in after:
                if p in self.user_files:
                    res.violate("file-lost", f"step {n}: unrelated file {p} was removed")
            elif after[p] != e and p in self.user_files:
                res.violate("file-changed", f"step {n}: unrelated file {p} was changed: {e[1][:80]!r} -> {after[p][1:2]!r:.100}")
        new = sorted(p for p in after if p not in before)
        if new:
            excused = crashed or removal_failed(fired)
            res.probes["litter-after-kill" if crashed else "litter"] += 1
            if not excused:
                res.violate("litter", f"step {n}: completed run (ok={ok}) left files behind: {[core.stable_name(x) for x in new]}; faults {fired}")
            self.litter_ok.update(new)


def cleanup_failed(fired) -> bool:
    """Did a fault fire that may legitimately keep a run from removing its temporary files?"""
    return any(k.split(":")[-1] in ("unlink", "rmdir") or k.startswith(("dead-disk", "disk-dies", "interrupt")) for k in fired)


def removal_failed(fired) -> bool:
    """The same, for runs whose temporary files are removed by one single operation each"""
    return any(k.split(":")[-1] in ("unlink", "rmdir") or k.startswith(("dead-disk", "disk-dies")) for k in fired)


def resegment(data: bytes, segs):
    """Re-reads a file which an external tool (black) reformatted: same markers in the same order, new surrounding text"""
    text = data.decode("utf-8", "surrogateescape")
    roles = [s["r"] for s in segs if "r" in s]
    lines = [x for x in re.split(r"(?<=\n)", text) if x]
    out: list = []
    cur: list = []
    region = None
    k = 0
    for n, line in enumerate(lines):
        want = roles[k] if k < len(roles) else None
        hit_open = any(f"<{TOKENS[r]}>" in line for r in set(roles))
        hit_close = any(f"</{TOKENS[r]}>" in line for r in set(roles))
        if region is None and hit_open and not hit_close and want and f"<{TOKENS[want]}>" in line:
            if cur:
                out.append({"t": "".join(cur)})
            cur, region = [], line
        elif region is not None and hit_close and not hit_open and f"</{TOKENS[want]}>" in line:
            pre, suf = region.split(f"<{TOKENS[want]}>", 1)
            pre2, suf2 = line.split(f"</{TOKENS[want]}>", 1)
            ind = pre[: len(pre) - len(pre.lstrip(" \t"))]
            ind2 = pre2[: len(pre2) - len(pre2.lstrip(" \t"))]
            noeol = not suf2.endswith("\n")
            if pre[len(ind):] != pre2[len(ind2):] or (noeol and n != len(lines) - 1):
                return None
            out.append(dict(r=want, indent=ind, indent2=ind2, pre=pre[len(ind):], suf=suf[:-1], suf2=suf2 if noeol else suf2[:-1], eol="\n", old="".join(cur), noeol=noeol))
            cur, region = [], None
            k += 1
        elif hit_open or hit_close:
            return None
        else:
            cur.append(line)
    if region is not None or k != len(roles):
        return None
    if cur:
        out.append({"t": "".join(cur)})
    return out if render(out) == data else None


_ = (get, NONASCII, gen_options)
