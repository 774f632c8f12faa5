"""H02: a header that fails or is interrupted contributes nothing to later output."""
from __future__ import annotations
from sim import core
from sim.core import digest
from props import gen as G
from props.gen import REAL, STUBS  # noqa: F401

RULE = ("one generator fed with headers that share names, some failing: interrupted at a seeded executed line, failing native parser, failing user callback, failing or undecodable read, missing file, natural errors; then queried, fed again (also with the "
        "failed header) and published; every later answer is compared with a twin generator in a fresh process that never saw the failed headers; non-trivial: at least one header failed after part of it was processed")
STATE_MEASURE = "digest of the places (module and function) where processing was interrupted, with the order of outcomes"
STEP_MEANING = "operations on the generator"
BUDGET = {"quick": 60, "thorough": 600}
MUST_HIT = ["failed", "reprocessed", "interrupt", "native", "callback", "read", "query"]

INJ = ["KeyboardInterrupt", "MemoryError", "CallbackAbort"]


def inject(rng, op, names, files, tag):
    """makes the processing of a header fail, perhaps"""
    x = rng.random()
    hooks = [n[3:] for n in names if n.startswith("cb:")]
    if x < 0.55:
        op["interrupt"] = [G.where(rng, 5.2), rng.choice(INJ)]
    elif x < 0.65:
        op["native"] = [int(10 ** rng.uniform(0, 1.5)) - 1, rng.choice(["RuntimeError", "KeyboardInterrupt", "ValueError"])]
    elif x < 0.85 and hooks:
        op["cb"] = [rng.choice(hooks), int(10 ** rng.uniform(0, 1.5)) - 1, rng.choice(["CallbackFailed", "CallbackAbort", "ValueError"])]
    else:
        name = f"bad{tag}.h"
        code = op.pop("code")
        op["op"] = "file"
        op["name"] = name
        y = rng.random()
        if y < 0.3:
            pass  # missing
        elif y < 0.6:
            files[name] = dict(text=code, tail=rng.choice(["ff", "c3", "e282"]))
        else:
            files[name] = dict(text=code, tail="")
            op["fault"] = dict(kind="error", op=rng.choice(["read", "open_r"]), k=rng.choice([0, 0, 1]), e=rng.randint(0, 3))
        op["_read"] = True


def gen(rng, tier):
    pool = G.Pool(rng)
    names = G.gen_opts(rng, 0.12, 4)
    if rng.random() < 0.5:
        names.append("cb:" + rng.choice([h for h in G.HOOKS if "cb:" + h not in names]))
    files: dict = {}
    ops = []
    failing = []
    for k in range(rng.randint(2, 5)):
        code = G.gen_code(rng, f"h{k}", pool, 3)
        op = dict(op="proc", g="g", code=code, name=G.gen_name(rng))
        if rng.random() < 0.55:
            bad = dict(op)
            inject(rng, bad, names, files, k)
            ops.append(bad)
            failing.append(op)
            if rng.random() < 0.4:
                ops.append(dict(op))
        else:
            ops.append(op)
        if rng.random() < 0.3:
            ops.append(dict(op="q", g="g", what=rng.choice(G.QUERIES)))
        if rng.random() < 0.15:
            ops.append(dict(op="gen", o="o", key="g", code=G.gen_code(rng, f"x{k}", pool, 2)))
        if rng.random() < 0.1:
            ops.append(dict(op="write", g="g", tag="w", glue=rng.random() < 0.5))
    if failing and rng.random() < 0.3:
        ops.append(dict(rng.choice(failing)))
    ops += [dict(op="q", g="g", what=w) for w in rng.sample(G.QUERIES, 5)]
    return dict(names=names, ops=ops, bad=files, outputs=["w"], env=dict(seed=1))


BASE = ("enum class Color\n{\n    FirstValue = 0,\n    SecondValue\n};\nnamespace Abc\n{\n    struct Thing\n    {\n        static const int MaxValue = 3;\n        enum class SubKind { KindA, KindB };\n        struct Nested { int qValue = 2; };\n"
        "        virtual int GoOn(int& v, Nested n = Nested());\n    protected:\n        virtual void HiddenOne(bool* b);\n    };\n    Thing MakeThing(int aValue = Thing::MaxValue, Color c = Color::SecondValue);\n}\n")
FIRST = ["int First();\n", "namespace Abc\n{\n    struct Early { int early = 1; };\n    void EarlyFn(int a, Early e = Early());\n}\nenum class Early2 { FirstValue, OtherValue };\n"]
LATER = "namespace Abc\n{\n    void UseIt(Thing t = MakeThing(2), Color c = Color::SecondValue, Thing::SubKind k = Thing::SubKind::KindB, Nested n = Nested());\n    struct Holder\n    {\n        Thing f(const Thing& t = Thing(), SubKind k = SubKind::KindA);\n        Early e;\n        Color c = MakeThing(1);\n    };\n}\nvoid UseToo(Color c = Color::FirstValue, float& w = 1, int x = GoOn(1));\n"


def directed(tier):
    """interrupts all along the processing of one header rich in side effects"""
    n = 170 if tier == "quick" else 1200
    for i in range(n):
        line = int((i + 0.5) / n * 62000) + 1 if i % 3 == 0 else [(i + 0.5) / n, 0.2 * (i % 4)]
        yield dict(names=["boxed_all", "virtual_all", "protected_all", "custom_main", "custom_ns"], bad={}, outputs=["w"], env=dict(seed=1),
                   ops=[dict(op="proc", g="g", code=FIRST[i // 2 % 2], name="first.h"), dict(op="proc", g="g", code=BASE, name="base.h", interrupt=[line, INJ[i % 3]]),
                        dict(op="q", g="g", what="stub"), dict(op="proc", g="g", code=LATER, name="later.h")]
                   + ([dict(op="proc", g="g", code=BASE, name="base.h")] if i % 2 else []) + [dict(op="q", g="g", what=w) for w in G.QUERIES])


def lay_out(plan):
    G.lay_out(plan)
    for n, f in plan["bad"].items():
        core.put(n, f["text"].encode("utf-8") + bytes.fromhex(f["tail"]))


CLEAN = ("interrupt", "native", "cb", "fault")


def life_failing(ctx, plan, ops):
    """as G.life_ops, where an operation may carry its own file fault"""
    from sim.env import Env

    env = Env(ctx, dict(plan["env"]))
    env.install()
    w = G.World(env, plan)
    partial = []
    for op in ops:
        if "fault" in op:
            f = op["fault"]
            env.fs.add_fault(f)
        before = dict(w.fired)
        w.do(op)
        if "fault" in op:
            env.fs.clear_faults()
        _ = before
        partial.append(getattr(w, "where", "") if "interrupt" in op else "")
        w.where = ""
    rep = env.report()
    rep["results"] = w.log
    rep["entries"] = w.entries
    for k, v in w.fired.items():
        rep["fired"][k] = rep["fired"].get(k, 0) + v
    rep["where"] = partial
    return rep


def run(plan, res):
    head = [dict(op="opt", o="o", names=plan["names"], key="g"), dict(op="new", g="g", o="o")]
    ops = head + plan["ops"]
    lay_out(plan)
    st, rep = core.life(life_failing, plan, ops)
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the run did not end ({st})")
        return
    res.faults.update(rep["fired"])
    got = rep["results"]["g"]
    kept, failed, seen_failed = [], 0, set()
    for op, (name, r, *_w) in zip(ops, got):
        res.steps += 1
        if op["op"] in ("proc", "file") and r[0] == "exc":
            failed += 1
            kind = next((c for c in CLEAN if c in op), "read" if op["op"] == "file" else "natural")
            res.probes["failed"] += 1
            res.probes[{"cb": "callback", "fault": "read"}.get(kind, kind)] += 1
            seen_failed.add(op.get("code"))
            continue
        if op["op"] == "q":
            res.probes["query"] += 1
        if op["op"] == "proc" and op.get("code") in seen_failed:
            res.probes["reprocessed"] += 1
        kept.append(({k: v for k, v in op.items() if k not in CLEAN}, (name, r)))
    res.nontrivial = any(x for x in rep["where"]) and failed > 0
    res.states.add(digest((rep["where"], [x[1][0] for x in got])))
    res.log.append(("failing", failed, digest(got)))
    lay_out(plan)
    st, twin = core.life(life_failing, plan, [k[0] for k in kept])
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the twin did not end ({st})")
        return
    want = twin["results"]["g"]
    for i, ((op, a), b) in enumerate(zip(kept, want)):
        if a != b[:2]:
            what = op.get("what", op["op"])
            res.violate("leftover", f"answer {i} ({what}) after {failed} failed headers:{G.diff(a[1], b[1])}")
            return
