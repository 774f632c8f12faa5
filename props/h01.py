"""H01: using an options object never changes it; option objects never share state."""
from __future__ import annotations
from sim import core
from sim.core import digest
from props import gen as G
from props.viewer import load_viewer
from props.gen import REAL, STUBS  # noqa: F401
from props.h02 import inject, lay_out, life_failing
from sim.headers import OPTION_OPS

RULE = ("one to three options objects, configured step by step, copied, and used in between by generators, one-shot generations, parses and publications, some of them failing (interrupts at a seeded executed line, callbacks, native parser, reads); "
        "every use (code, errors, warnings, and whether progress is displayed) is compared with the same use of a freshly configured object in a fresh process; non-trivial: some object was used at least twice")
STATE_MEASURE = "digest of the order of configurations, uses and outcomes"
STEP_MEANING = "operations on options and generators"
BUDGET = {"quick": 60, "thorough": 600}
MUST_HIT = ["reused", "used-after-failure", "configured-between", "copied", "custom_main", "two-objects", "merged"]


def gen(rng, tier):
    pool = G.Pool(rng)
    files: dict = {}
    ops: list = []
    conf: dict = {}
    nobj = rng.choice([1, 1, 2, 3])
    outputs = []
    gens: list = []
    for i in range(nobj):
        names = G.gen_opts(rng, 0.06, 4) if i == 0 or rng.random() < 0.6 else G.twin(rng, conf["o0"])
        for n in ("custom_main", "custom_main_stub", "custom_main_pydef", "custom_ns"):
            if rng.random() < 0.3 and n not in names:
                names.append(n)
        conf[f"o{i}"] = names
        ops.append(dict(op="opt", o=f"o{i}", names=list(names)))
    for k in range(rng.randint(3, 8)):
        o = rng.choice(sorted(conf))
        x = rng.random()
        if x < 0.12:
            extra = [rng.choice([n for n in OPTION_OPS if n != "nanobind"])]
            if "vectorize" in extra and "nanobind" in conf[o]:
                extra = []
            conf[o] += extra
            ops.append(dict(op="conf", o=o, names=extra))
        elif x < 0.16 and len(conf) > 1:
            of = rng.choice([n for n in sorted(conf) if n != o])
            ops.append(dict(op="merge", o=o, of=of))
        elif x < 0.22:
            new = f"c{k}"
            extra = [rng.choice([n for n in OPTION_OPS if n not in ("nanobind", "vectorize")])]
            conf[new] = list(conf[o]) + extra
            ops.append(dict(op="opt", o=new, copy=o, names=extra))
        elif x < 0.3 and gens:
            g, o = rng.choice(gens)
            ops.append(dict(op="proc", g=g, o=o, code=G.gen_code(rng, f"k{k}", pool, 3), name=G.gen_name(rng)))
            ops.append(dict(op="q", g=g, o=o, what=rng.choice(G.QUERIES)))
        elif x < 0.5:
            g = f"g{k}"
            gens.append((g, o))
            ops.append(dict(op="new", g=g, o=o))
            op = dict(op="proc", g=g, o=o, code=G.gen_code(rng, f"k{k}", pool, 3), name=G.gen_name(rng))
            if rng.random() < 0.4:
                inject(rng, op, conf[o], files, k)
            ops.append(op)
            ops += [dict(op="q", g=g, o=o, what=w) for w in rng.sample(G.QUERIES, rng.randint(1, 3))]
        elif x < 0.6:
            ops.append(G.gen_other(rng, o, None, G.gen_code(rng, f"k{k}", pool, 2), "", demo=True))
        elif x < 0.7:
            files[f"h{k}.h"] = dict(text=G.gen_code(rng, f"k{k}", pool, 3), tail="")
            outputs.append(f"w{k}")
            ops.append(dict(op="wfile", o=o, names=[f"h{k}.h"] * rng.choice([1, 1, 2]), tag=f"w{k}", glue=rng.random() < 0.5))
        elif x < 0.78 and len(conf) > 1:
            # the same header with every object
            code = G.gen_code(rng, f"k{k}", pool, 3)
            ops += [dict(op="gen", o=n, code=code) for n in sorted(conf)]
        else:
            op = dict(op="gen", o=o, code=G.gen_code(rng, f"k{k}", pool, 3), omit=rng.random() < 0.1)
            if rng.random() < 0.3:
                op["interrupt"] = [G.where(rng, 5.2), rng.choice(["KeyboardInterrupt", "MemoryError", "CallbackAbort"])]
            ops.append(op)
    for o in sorted(conf):
        if rng.random() < 0.7:
            ops.append(dict(op="gen", o=o, code=G.gen_code(rng, "end", pool, 3)))
    return dict(ops=ops, bad=files, outputs=outputs, env=dict(seed=1))


INJECTED = ("interrupt", "native", "cb", "fault")


def run(plan, res):
    load_viewer()
    lay_out(plan)
    st, rep = core.life(life_failing, plan, plan["ops"])
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the run did not end ({st})")
        return
    res.faults.update(rep["fired"])
    conf: dict = {}
    used: dict = {}
    broken: set = set()
    gops: dict = {}  # operations a generator has seen, after those that failed were taken out
    if len(rep["entries"]) != len(plan["ops"]):
        raise core.HarnessError("operations were lost")
    warns = {}
    seen: dict = {}
    for key, entries in rep["results"].items():
        warns[key] = [e[2:] for e in entries]
    res.states.add(digest([(op["op"], r[0]) for op, r, _ in rep["entries"]]))
    res.log.append(("used", digest(rep["entries"])))
    for op, r, _ in rep["entries"]:
        res.steps += 1
        key = op.get("key", op.get("g", "main"))
        w = warns[key][seen.get(key, 0)]
        seen[key] = seen.get(key, 0) + 1
        k = op["op"]
        o = op.get("o")
        if k == "opt":
            base = list(conf[op["copy"]]) if op.get("copy") else []
            conf[o] = base + [["opt" if not op.get("copy") else "conf", op["names"]]]
            if op.get("copy"):
                res.probes["copied"] += 1
            continue
        if k in ("conf", "merge"):
            conf[o] = conf[o] + [["conf", op["names"]] if k == "conf" else ["merge", conf[op["of"]]]]
            res.probes["merged"] += k == "merge"
            res.probes["configured-between"] += used.get(o, 0) > 0
            for g in gops:
                if gops[g][0][1]["o"] == o:
                    gops[g].append(("conf", None))
            continue
        cfg = configuration(conf[o], "r")
        if k == "new":
            # (a generator keeps a reference to its options: when they are configured further, it is not compared any more)
            gops[op["g"]] = [("new", op)]
            continue
        if r[0] == "exc" and any(x in op for x in INJECTED) or op.get("_read"):
            broken.add(o)
            used[o] = used.get(o, 0) + 1
            if k in ("proc", "file") and r[0] == "ok":
                gops[op["g"]].append(("op", clean(op)))
            continue
        if k in ("proc", "file", "q"):
            if any(c[0] == "conf" for c in gops[op["g"]]):
                continue
            q = clean(op)
            hist = [dict(x[1], o="r") for x in gops[op["g"]]]
            if k == "proc" and r[0] == "ok":
                gops[op["g"]].append(("op", q))
            ref = cfg + hist + [dict(q, o="r")]
        else:
            ref = cfg + [dict(clean(op), o="r")]
        used[o] = used.get(o, 0) + 1
        if used[o] >= 2:
            res.nontrivial = True
            res.probes["reused"] += 1
        any_failed = bool(broken)
        if o in broken:
            res.probes["used-after-failure"] += 1
        if any("custom_main" in n for n in names_of(conf[o])):
            res.probes["custom_main"] += 1
        if len(conf) > 1:
            res.probes["two-objects"] += 1
        lay_out(plan)
        st, fresh = core.life(life_failing, plan, ref)
        res.lives += 1
        if st != "ok":
            res.violate("hang", f"the reference did not end ({st})")
            return
        want, want_w = fresh["entries"][-1][1], fresh["results"][op.get("g", "main")][-1][2:]
        if want != r:
            res.violate("options-changed", f"operation {res.steps} ({k} with {o}, used {used[o]} times):{G.diff(r, want)}")
            return
        if any_failed and w[1] and not want_w[1]:
            want_w = (want_w[0], True)  # (a progress bar which an interrupted run left on the terminal says nothing about the options)
        if tuple(want_w) != tuple(w):
            res.violate("display-changed", f"operation {res.steps} ({k} with {o}, used {used[o]} times):{G.diff(list(w), list(want_w))}")
            return


def configuration(conf, name) -> list:
    """the operations which configure such an object afresh"""
    out = []
    for i, (a, x) in enumerate(conf):
        if a == "merge":
            out += configuration(x, f"{name}{i}") + [dict(op="merge", o=name, of=f"{name}{i}")]
        else:
            out.append(dict(op=a, o=name, names=x))
    return out


def names_of(conf) -> list:
    return [n for a, x in conf for n in (names_of(x) if a == "merge" else x)]


def clean(op):
    return {a: b for a, b in op.items() if a not in INJECTED and a != "key"}


RICH = ("struct Pod\n{\n    int aa = 1;\n    std::vector<int> bb;\n};\nstruct Other\n{\n    Pod pod;\n    virtual int GoOn(int& v, Pod n = Pod());\n};\ntemplate<typename T> T TplF(T a);\n"
        "enum class Color { FirstValue, SecondValue };\nvoid Use(Color c = Color::SecondValue, std::vector<int> v = {1, 2}, const char* txt = NULL);\n")
WARNS = "template<typename T> T Unspec(T a);\nint Cb(int (*cb)(int, float), int z);\nstruct W { int a[NN]; unsigned int bits : 3; };\nstruct Pod2 { int z; };\n"


def directed(tier):
    """failures all along one use, followed by other uses which emit warnings"""
    n = 120 if tier == "quick" else 900
    for i in range(n):
        line = int((i + 0.5) / n * 62000) + 1
        names = ["boxed_all", "virtual_all", "custom_main", "custom_ns", "tpl_fn", "progress"] if i % 3 else ["nanobind", "custom_main", "progress"]
        yield dict(bad={}, outputs=[], env=dict(seed=1), ops=[dict(op="opt", o="o0", names=names), dict(op="opt", o="o1", names=[]),
                                                              dict(op="gen", o="o0", code=RICH, interrupt=[line, ["KeyboardInterrupt", "MemoryError"][i % 2]]),
                                                              dict(op="gen", o="o0", code=WARNS), dict(op="gen", o="o0", code=RICH), dict(op="gen", o="o1", code=WARNS)])
    for names in ([], ["nanobind"], ["boxed_all", "custom_main"]):
        yield dict(bad={}, outputs=[], env=dict(seed=1), ops=[dict(op="opt", o="o0", names=names), dict(op="demo", o="o0", code=RICH), dict(op="gen", o="o0", code=RICH), dict(op="demo", o="o0", code=WARNS), dict(op="gen", o="o0", code=WARNS)])
    for k in range(24):
        yield dict(bad={}, outputs=[], env=dict(seed=1), ops=[dict(op="opt", o="o0", names=["boxed_all"]), dict(op="gen", o="o0", code=RICH, native=[k, "RuntimeError"]), dict(op="gen", o="o0", code=WARNS)])
    # replacements taken over from another object, before more are added to either
    from props.c01 import TWIN

    for first, more in (("o0", "o1"), ("o1", "o0")):
        for names in (["repl_a"], ["type_repl", "fn_repl", "var_repl", "ns_repl", "macro_repl", "ptype_repl"], []):
            ops = [dict(op="opt", o="o0", names=names), dict(op="opt", o="o1", names=[]), dict(op="merge", o="o1", of="o0"), dict(op="conf", o=more, names=["repl_b"])]
            yield dict(bad={}, outputs=[], env=dict(seed=1), ops=ops + [dict(op="gen", o=first, code=TWIN + RICH), dict(op="gen", o=more, code=TWIN + RICH), dict(op="gen", o=first, code=TWIN)])
