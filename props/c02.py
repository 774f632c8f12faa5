"""C02: generators interleaved, nested or re-entered in one process are independent."""
from __future__ import annotations
import json

from sim import core
from sim.core import digest
from props import gen as G
from props.gen import REAL, STUBS  # noqa: F401

RULE = ("two to four generators driven by one seeded interleaving of submissions, queries, writes and direct parses, some from inside user callbacks of another generation, some failing or interrupted at a seeded executed line; "
        "each generator's answers are compared with the same operations alone in a fresh process; non-trivial: at least two generators answered queries")
STATE_MEASURE = "digest of the order of operations with their outcome kinds"
STEP_MEANING = "operations on generators"
BUDGET = {"quick": 60, "thorough": 500}
MUST_HIT = ["nested", "nested-exception", "interrupt", "query", "write", "callback-exception"]


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    pool = G.Pool(rng)
    seqs = []
    outputs = []
    shared_names = G.gen_opts(rng, 0.1, 4)
    for i in range(n):
        names = list(shared_names) if rng.random() < 0.4 else G.gen_opts(rng, 0.15, 4)
        if not any(x.startswith("cb:") for x in names) and rng.random() < 0.6:
            names.append("cb:" + rng.choice(G.HOOKS))
        o, g = f"o{i}", f"g{i}"
        ops = [dict(op="opt", o=o, names=names, key=g), dict(op="new", g=g, o=o, omit=rng.random() < 0.1)]
        for k in range(rng.randint(1, 4)):
            x = rng.random()
            if x < 0.55:
                op = dict(op="proc", g=g, code=G.gen_code(rng, f"g{i}h{k}", pool, 3), name=G.gen_name(rng))
                if rng.random() < 0.2:
                    op["interrupt"] = [rng.choice([1, 30, 300, 3000, 30000, 100000]) + rng.randint(0, 3000), rng.choice(["KeyboardInterrupt", "MemoryError", "CallbackAbort"])]
                elif rng.random() < 0.1:
                    op["native"] = [rng.randint(0, 4), "RuntimeError"]
                ops.append(op)
            elif x < 0.7:
                ops.append(dict(op="gen", o=o, key=g, code=G.gen_code(rng, f"g{i}k{k}", pool, 2)))
            elif x < 0.8:
                ops.append(G.gen_other(rng, o, g, G.gen_code(rng, f"g{i}k{k}", pool, 2), G.gen_name(rng)))
            else:
                ops.append(dict(op="q", g=g, what=rng.choice(G.QUERIES)))
        if rng.random() < 0.3:
            outputs.append(f"w{i}")
            ops.append(dict(op="write", g=g, tag=f"w{i}", glue=rng.random() < 0.5))
        ops += [dict(op="q", g=g, what=w) for w in rng.sample(G.QUERIES, rng.randint(2, 5))]
        seqs.append(ops)
    if rng.random() < 0.3:  # the same work with options that differ in one point
        j = rng.randrange(1, n)
        extra = rng.choice([x for x in G.OPTION_OPS if x not in G.BAN])
        names = G.twin(rng, seqs[0][0]["names"]) if rng.random() < 0.5 else [x for x in seqs[0][0]["names"] if x != extra and not any(extra in e and x in e for e in G.EXCLUSIVE)] + ([] if extra in seqs[0][0]["names"] else [extra])
        seqs[j] = [dict(op="opt", o=f"o{j}", names=names, key=f"g{j}")] + [json.loads(json.dumps(op).replace('"g": "g0"', f'"g": "g{j}"').replace('"o": "o0"', f'"o": "o{j}"').replace('"key": "g0"', f'"key": "g{j}"')) for op in seqs[0][1:]]
        for op in seqs[j]:
            if op["op"] == "write":
                op["tag"] = f"w{j}"
                if f"w{j}" not in outputs:
                    outputs.append(f"w{j}")
    # callbacks that fail, in any generator
    actions = []
    for i, ops in enumerate(seqs):
        hooks = [x[3:] for x in ops[0]["names"] if x.startswith("cb:")]
        for h in hooks:
            if rng.random() < 0.2:
                actions.append(dict(oid=f"o{i}", hook=h, k=rng.randint(0, 6), do=rng.choice(["CallbackFailed", "CallbackAbort", "KeyboardInterrupt", "ValueError"])))
    # an interleaving of the sequences, where some operations happen inside a callback of another generation
    pos = [0] * n
    order = []
    nested = []
    while any(pos[i] < len(seqs[i]) for i in range(n)):
        i = rng.choice([k for k in range(n) if pos[k] < len(seqs[k])])
        order.append([i, pos[i]])
        pos[i] += 1
        if rng.random() < 0.4 and n > 1:
            hooks = [x[3:] for x in seqs[i][0]["names"] if x.startswith("cb:")]
            others = [k for k in range(n) if k != i and pos[k] < len(seqs[k])]
            if hooks and others and order[-1][1] >= 1:
                j = rng.choice(others)
                m = rng.randint(1, min(3, len(seqs[j]) - pos[j]))
                nested.append(dict(after=len(order) - 1, oid=f"o{i}", hook=rng.choice(hooks), skip=rng.randint(0, 5), seq=j, first=pos[j], n=m))
                pos[j] += m
    return dict(seqs=seqs, order=order, nested=nested, actions=actions, outputs=outputs, env=dict(seed=1))


def directed(tier):
    """the same header with options that differ in one point, one after the other"""
    from sim.headers import OPTION_OPS, RICH_NEEDS, RICH_SHOWS, rich_parts

    parts = rich_parts()
    out = []
    for base in ([], ["boxed_all", "virtual_all", "protected_all"]) if tier == "quick" else ([], ["boxed_all", "virtual_all", "protected_all"], ["nanobind", "boxed_all"], ["class_ctor", "mutable_default", "loc"]):
        names = [n for n in OPTION_OPS if n not in base]
        if base and tier == "quick":
            names = [n for n in names if n in ("nanobind", "indent2", "tabs", "pytabs", "pyindent2", "no_snake", "line40", "no_layout", "no_comments", "sig", "loc", "type_repl", "out_return", "deep_copy", "gil", "root_ns")]
        for part, a in [(p, a) for p in range(4) for a in range(0, sum(RICH_SHOWS.get(n, 3) == p for n in names), 6)]:
            code = parts[part]
            shown = [n for n in names if RICH_SHOWS.get(n, 3) == part]
            chain = [[]] + [RICH_NEEDS.get(n, []) + [n] for n in shown[a:a + 6]] + [[]]
            seqs = [[dict(op="opt", o=f"o{i}", names=list(base) + [n for n in c if n not in base], key=f"g{i}"), dict(op="new", g=f"g{i}", o=f"o{i}", omit=False), dict(op="proc", g=f"g{i}", code=code, name="lib/rich.h")]
                    + [dict(op="q", g=f"g{i}", what=w) for w in ("pydef", "stub", "glue")] for i, c in enumerate(chain)]
            out.append(dict(seqs=seqs, order=[[i, k] for i, ops in enumerate(seqs) for k in range(len(ops))], nested=[], actions=[], outputs=[], env=dict(seed=1)))
    # options of the same shape with other contents, one after the other or in alternation
    from props.c01 import TWIN
    from sim.headers import TWINS

    pairs = sorted({tuple(sorted(p)) for p in TWINS.items()})
    groups = [RICH_NEEDS.get(a, []) + [a] for a, _b in pairs] + [["repl_a", "tpl_class", "tpl_fn", "boxed_all"], ["repl_a", "exclude_fn", "custom_main", "num_macros", "virtual_all", "custom_class"], ["!"]]
    for n, names in enumerate(groups):
        for code in (TWIN, parts[n % 4]) if tier == "quick" else [TWIN] + list(parts):
            chain = [names, [TWINS.get(x, x) for x in names]] if names[-1] != "!" else [["repl_a", "type_repl", "tpl_class_b"], ["repl_b", "type_repl_b", "tpl_class_b"]]
            seqs = [[dict(op="opt", o=f"o{i}", names=c, key=f"g{i}"), dict(op="new", g=f"g{i}", o=f"o{i}", omit=False), dict(op="proc", g=f"g{i}", code=code, name="lib/rich.h")]
                    + [dict(op="q", g=f"g{i}", what=w) for w in ("pydef", "stub", "glue")] for i, c in enumerate(chain)]
            order = [[i, k] for i in range(2) for k in range(6)] if n % 2 else [[i, k] for k in range(6) for i in range(2)]
            out.append(dict(seqs=seqs, order=order, nested=[], actions=[], outputs=[], env=dict(seed=1)))
    return out


def life_interleaved(ctx, plan):
    """runs the interleaving; operations meant to happen inside a callback which was not called happen right afterwards"""
    from sim.env import Env

    env = Env(ctx, dict(plan["env"]))
    env.install()
    w = G.World(env, plan)
    pending: list = []
    nested_done = [0]

    def callback(oid, hook):
        k = w.counts.get((oid, hook), 0)
        w.counts[(oid, hook)] = k + 1
        for p in list(pending):
            if p["oid"] == oid and p["hook"] == hook:
                if p["skip"] > 0:
                    p["skip"] -= 1
                    continue
                pending.remove(p)
                nested_done[0] += 1
                run_nested(p)
        do = w.actions.get((oid, hook, k))
        if do is not None:
            w.fire(f"callback-raises:{do}")
            raise G.EXC[do]("simulated")

    def run_nested(p):
        import sys

        old = sys.gettrace()
        sys.settrace(None)
        saved = w.err.take()
        for k in range(p["first"], p["first"] + p["n"]):
            if k < len(plan["seqs"][p["seq"]]):
                w.do(plan["seqs"][p["seq"]][k])
        w.err.write(saved)
        sys.settrace(old)

    w.callback = callback
    for idx, (i, k) in enumerate(plan["order"]):
        for p in plan["nested"]:
            if p["after"] == idx:
                pending.append(dict(p))
        if i < len(plan["seqs"]) and k < len(plan["seqs"][i]):
            w.do(plan["seqs"][i][k])
        for p in list(pending):
            pending.remove(p)
            run_nested(p)
    rep = env.report()
    rep["results"] = w.log
    for k, v in w.fired.items():
        rep["fired"][k] = rep["fired"].get(k, 0) + v
    rep["nested"] = nested_done[0]
    return rep


def run(plan, res):
    ref = {}
    for i, ops in enumerate(plan["seqs"]):
        G.lay_out(plan)
        st, rep = core.life(G.life_ops, plan, ops)
        res.lives += 1
        if st != "ok":
            res.violate("hang", f"generator {i} alone did not end ({st})")
            return
        ref[f"g{i}"] = rep["results"].get(f"g{i}", [])
    G.lay_out(plan)
    st, rep = core.life(life_interleaved, plan)
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the interleaving did not end ({st})")
        return
    res.faults.update(rep["fired"])
    res.faults["nested-operation"] += rep["nested"]
    res.probes["nested"] += rep["nested"]
    for k, v in rep["fired"].items():
        if k.startswith("callback-raises"):
            res.probes["callback-exception"] += v
            if rep["nested"]:
                res.probes["nested-exception"] += 1
        if k.startswith("interrupt"):
            res.probes["interrupt"] += v
    for i, ops in enumerate(plan["seqs"]):
        for op in ops:
            res.steps += 1
            res.probes[{"q": "query"}.get(op["op"], op["op"])] += 1
    res.nontrivial = len(plan["seqs"]) >= 2
    res.states.add(digest((plan["order"], [(n["after"], n["hook"]) for n in plan["nested"]], [(k, [x[1][0] for x in v]) for k, v in sorted(rep["results"].items())])))
    res.log.append(("interleaved", rep["nested"], digest(sorted(rep["results"].items()))))
    for g, want in sorted(ref.items()):
        got = rep["results"].get(g, [])
        ops = plan["seqs"][int(g[1:])]
        for i, (w, x) in enumerate(zip(want, got)):
            injected = "interrupt" in ops[i] or "native" in ops[i]
            if injected and w[:2] != x[:2] and "exc" in (w[1][0], x[1][0]):
                # (the injected failure came in one of the two only: how many lines are executed may depend on caches)
                res.probes["injection-differs"] += 1
                break
            if w[:2] != x[:2]:
                res.violate("differs", f"{g} answer {i} ({w[0]}):{G.diff(x[1], w[1])}")
                return
        if len(got) != len(want):
            raise core.HarnessError(f"{g}: {len(got)} answers instead of {len(want)}: the interleaving does not contain every operation")
