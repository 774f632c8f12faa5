"""F06: text files are read and written as UTF-8 whatever the machine's locale."""
import os

from sim import core
from sim.core import digest, put, tree
from sim.env import Env
from props import amalg as A
from props import outputs as O
from props import p01 as P
from props import validate as V
from props import viewer as W
from props.f01 import gen_step
from props.outputs import Engine
from sim.headers import gen_options, header, SMALL, KINDS

REAL = O.REAL + ["codemanip.html_code_viewer", "codemanip.amalgamated_header", "srcmlcpp_tools.pimpl_my_class", "litgen.validate_bindings_compilation"]
STUBS = O.STUBS
RULE = ("the default text encoding is a seam (UTF-8, ASCII, Latin-1, cp1252, cp437, Shift-JIS, UTF-16, EBCDIC); generator histories, amalgamations, PImpl publications, code viewers of files, parsed files and validation projects with non-ASCII text everywhere are run under a random one, "
        "with file faults, and compared byte for byte with the region model in UTF-8 or with the same scenario under UTF-8; headers in another declared encoding must give what the same header in UTF-8 gives; "
        "non-trivial: the locale is not UTF-8 or the header encoding is not UTF-8")
STATE_MEASURE = "digest of (scenario, locale, operation log, outcome) of one run"
BUDGET = {"quick": 34, "thorough": 600}
MUST_HIT = ["completed", "scenario:gen", "scenario:amalg", "scenario:pimpl", "scenario:validate", "scenario:viewer", "scenario:parse", "header-encoding"]
LOCALES = ["ascii", "latin-1", "cp1252", "cp437", "shift_jis", "utf-16", "cp037", "utf-8"]
ENCODINGS = {"iso-8859-1": "é ü ñ", "cp1252": "é € ü", "shift_jis": "日本 語", "utf-16": "é 日本 €", "latin-1": "é ü", "utf-8-sig": "é 日本", "koi8-r": "привет"}


def gen(rng, tier):
    sc = rng.choice(["gen", "gen", "gen", "amalg", "pimpl", "validate", "viewer", "parse"])
    loc = rng.choice(LOCALES)
    if sc == "gen":
        files, glue_arg = O.gen_layout(rng)
        headers = O.gen_headers_pool(rng, rng.randint(1, 3), KINDS)
        enc = None
        if rng.random() < 0.4:
            enc = rng.choice(sorted(ENCODINGS))
            words = ENCODINGS[enc]
            for i, h in enumerate(headers):
                h["text"] = f"// {words}\nint Enc{i}(int a = 1); // {words}\n" + "".join(c if ord(c) < 128 else rng.choice(words.replace(" ", "")) for c in h["text"])
        else:
            for i, h in enumerate(headers):
                h["text"] = f"// é 日本 {i}\n" + h["text"]
        steps = []
        for _ in range(rng.randint(1, 3)):
            s = gen_step(rng, len(headers), fault_rate=0.3, post_rate=0.25)
            s["locale"] = rng.choice([loc, loc, rng.choice(LOCALES)])
            if rng.random() < 0.15:
                s["black"] = True
            steps.append(s)
        return dict(scenario="gen", files=files, glue_arg=glue_arg, opts=gen_options(rng, nmax=2), headers=headers, env=O.gen_env(rng), steps=steps, encoding=enc, omit=False)
    if sc == "amalg":
        g = A.norm_graph(A.gen_graph(rng, 4))
        for i, f in enumerate(g["files"].values()):
            f["items"].insert(1, {"t": f"// é 日本 {i}"})
        return dict(scenario=sc, locale=loc, g=g, first=rng.choice([None, "old é\n"]), env=dict(seed=rng.randint(0, 1 << 30)))
    if sc == "viewer":
        files = {f"v{i}.{e}": "// é 日本 €\n" + header(rng, f"v{i}_", 2) for i, e in enumerate(rng.choices(["h", "py", "cpp"], k=rng.randint(1, 2)))}
        return dict(scenario=sc, locale=loc, files={k: v.replace("\r", "") for k, v in files.items()}, env=dict(seed=1))
    if sc == "parse":  # files given to the parser, in the declared encoding
        enc = rng.choice(["utf-8"] + sorted(ENCODINGS))
        words = ENCODINGS.get(enc, "é 日本 €")
        text = f"// {words}\nint Enc(int a = 1); // {words}\n" + "".join(c if ord(c) < 128 else rng.choice(words.replace(" ", "")) for c in header(rng, "p", 3))
        return dict(scenario=sc, locale=loc, encoding=enc, text=text.replace("\r", ""), bad=rng.random() < 0.2 and enc == "utf-8", options=[rng.random() < 0.5, rng.random() < 0.3], env=dict(seed=1))
    if sc == "pimpl":
        p = P.gen(rng, tier)
        for s in p["steps"]:
            s["locale"] = loc
        p["cls"] = "// é 日本\n" + p["cls"]
        return dict(scenario=sc, locale=loc, p=p)
    step = V.gen_step(rng, 0.0, 0.0)
    step.update(work=rng.choice(["work", "é"]), on_success=False, on_failure=False, hack=False, cpp="// é ü 日本\n" + step["cpp"], test=rng.choice([None, "def test_a():\n    assert 'é日' == 'é日'\n"]))
    return dict(scenario=sc, locale=loc, step=step, opts=gen_options(rng, nmax=2), env=dict(seed=rng.randint(0, 1 << 30)))


class E6(Engine):
    def extra(self, n, step, ref, before, after, ok, crashed, rep):
        if step.get("locale", "utf-8") != "utf-8":
            self.res.nontrivial = True
            self.res.faults["locale:" + step["locale"]] += 1


def life_viewer(ctx, plan, loc):
    env = Env(ctx, dict(seed=1, locale=loc))
    env.install()
    import codemanip.html_code_viewer.html_code_viewer as v

    out = []
    for n in plan["files"]:
        page: list = []
        W.collect(page.append)
        try:
            (v.show_python_file if n.endswith(".py") else v.show_cpp_file)(n)
            _i, viewers, _b = W.parse("".join(page))
            out.append(["ok", viewers[0][3], viewers[0][4].strip()])
        except Exception as e:
            out.append(["exc", type(e).__name__, str(e)[:300]])
    return out


def life_parse(ctx, plan, loc, enc):
    env = Env(ctx, dict(seed=1, locale=loc))
    env.install()
    import srcmlcpp

    out = []
    for f in (srcmlcpp.code_to_cpp_unit, srcmlcpp.srcmlcpp_main.code_to_srcml_wrapper):
        o = srcmlcpp.SrcmlcppOptions()
        o.flag_quiet = True
        o.encoding = enc
        o.preserve_empty_lines, o.flag_srcml_dump_positions = plan["options"]
        try:
            u = f(o, None, "parsed.h")
            out.append(["ok", str(u), u.str_code_verbatim()])
        except Exception as e:
            out.append(["exc", type(e).__name__])
    return out


def run(plan, res):
    sc = plan["scenario"]
    res.probes["scenario:" + sc] += 1
    loc = plan.get("locale", "utf-8")
    if loc != "utf-8":
        res.nontrivial = True
        res.faults["locale:" + loc] += 1
    if sc == "gen":
        if plan.get("encoding"):
            res.probes["header-encoding"] += 1
            res.nontrivial = True
        E6(plan, res, "F06").run()
        return
    if sc == "pimpl":
        P.run(plan["p"], res)
        return
    if sc == "amalg":
        g = plan["g"]
        os.makedirs("tmp")
        A.lay_out(g)
        kind, want, _n = A.model(g)
        trees = []
        for n, lo in enumerate(("utf-8", loc)):
            if os.path.lexists(g["dst"]):
                os.unlink(g["dst"])
            if plan["first"] is not None:
                put(g["dst"], plan["first"].encode())
            rep, crashed = A.run_life(g, dict(faults=[], locale=lo), plan["env"], res, n)
            res.steps += 1
            if rep is None:
                return
            o = rep["outcome"]
            if o["ok"] != (kind == "ok"):
                res.violate("wrong-outcome", f"under {lo}: {o}; the include graph says {kind}")
            t = tree(".")
            trees.append(t)
            if o["ok"] and kind == "ok":
                got = t[os.path.normpath(g["dst"])][1]
                if A.significant(got.decode("utf-8", "replace")) != want:
                    res.violate("wrong-content", f"under {lo}: amalgamation {got[:200]!r} wanted lines {want[:6]}")
        if trees[0] != trees[1]:
            diff = [p for p in set(trees[0]) | set(trees[1]) if trees[0].get(p) != trees[1].get(p)]
            res.violate("locale-dependent", f"amalgamation differs under {loc}: {diff}")
        return
    if sc == "viewer":
        W.load_viewer()
        for n, text in plan["files"].items():
            put(n, text.encode("utf-8"))
        for lo in ("utf-8", loc):
            res.steps += 1
            st, got = core.life(life_viewer, plan, lo)
            res.lives += 1
            res.log.append((lo, digest(got)))
            want = [["ok", text.strip("\n"), n] for n, text in plan["files"].items()]
            if st != "ok" or [[x[0], x[1].strip("\n"), x[2]] for x in got] != want:
                res.violate("viewer", f"under {lo}: {str(got)[:300]} instead of {str(want)[:300]}")
                return
            res.states.add(digest((sc, lo, len(want))))
            res.probes["completed"] += 1
        return
    if sc == "parse":
        got = []
        for lo, enc in (("utf-8", "utf-8"), (loc, plan["encoding"]), ("utf-8", plan["encoding"])):
            data = plan["text"].encode(enc)
            put("parsed.h", data[:20] + b"\xff\xfe\x80" + data[20:] if plan["bad"] else data)
            res.steps += 1
            st, r = core.life(life_parse, plan, lo, enc)
            res.lives += 1
            got.append(r if st == "ok" else st)
            res.log.append((lo, enc, digest(r)))
            res.states.add(digest((sc, lo, enc, r)))
        if plan["encoding"] != "utf-8":
            res.nontrivial = True
            res.probes["header-encoding"] += 1
        if got[1] != got[0] or got[2] != got[0]:
            res.violate("parse", f"a file in {plan['encoding']}, under {loc}: {str(got[1:])[:300]} instead of {str(got[0])[:300]}")
        elif plan["bad"] and any(r[0] == "ok" for r in got[0]):
            res.violate("undecodable", f"a file that is not valid UTF-8 was parsed: {str(got[0])[:300]}")
        res.probes["completed" if got[0][0][0] == "ok" else "raised"] += 1
        return
    step = plan["step"]
    V.lay_out(plan)
    got = []
    for n, lo in enumerate(("utf-8", loc)):
        res.steps += 1
        st, rep = core.life(V.life_validate, plan, dict(step, locale=lo, out=""), False)
        res.lives += 1
        if st != "ok":
            res.violate("hang", f"validation did not end ({st})")
            return
        w = V.workdir(step)
        t = {p: e for p, e in tree(".").items() if V.inside(p, w)}
        got.append((rep["outcome"], t))
        res.log.append((lo, repr(rep["outcome"]), len(t)))
        res.states.add(digest((lo, repr(rep["outcome"]), rep["oplog"])))
        res.probes["completed" if rep["outcome"]["ok"] else "raised"] += 1
    if got[0] != got[1]:
        diff = [p for p in set(got[0][1]) | set(got[1][1]) if got[0][1].get(p) != got[1][1].get(p)]
        res.violate("locale-dependent", f"validation differs under {loc}: {got[0][0]} vs {got[1][0]}; files {diff}")
    elif got[0][0]["ok"]:
        code = got[0][1].get(os.path.join(V.workdir(step), "code.cpp"))
        if code is not None and "// é ü 日本".encode() not in code[1]:
            res.violate("not-utf8", f"code.cpp does not hold the source text in UTF-8: {code[1][:100]!r}")


_ = (header, SMALL)
