"""H03: reading a generator's results is pure and order-independent."""
from __future__ import annotations
from sim import core
from sim.core import digest
from props import gen as G
from props.gen import REAL, STUBS  # noqa: F401

RULE = ("one generator fed with headers while its results are read, any number of times and in any order, published to files, some of those readings failing (callbacks that raise, interrupts at a seeded executed line, failing file operations, "
        "missing output files) or made from inside a callback; every answer is compared with the only question asked of a generator that processed the same headers in a fresh process; non-trivial: at least three answers, two of them of different kinds")
STATE_MEASURE = "digest of the order of questions, failures and submissions"
STEP_MEANING = "operations on the generator"
BUDGET = {"quick": 60, "thorough": 500}
MUST_HIT = ["asked", "failed-query", "failed-write", "write", "nested", "asked-after-failure"]


def gen(rng, tier):
    pool = G.Pool(rng)
    names = G.gen_opts(rng, 0.1, 4)
    for h in ("post_stub", "post_pydef"):
        if rng.random() < 0.5 and "cb:" + h not in names:
            names.append("cb:" + h)
    hooks = [n[3:] for n in names if n in ("cb:post_stub", "cb:post_pydef")]
    ops = []
    for k in range(rng.randint(1, 3)):
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(query(rng, hooks))
        ops.append(dict(op="proc", g="g", code=G.gen_code(rng, f"h{k}", pool, 3), name=G.gen_name(rng)))
        for _ in range(rng.choice([0, 1, 2, 4])):
            ops.append(query(rng, hooks))
    ops += [query(rng, hooks) for _ in range(rng.randint(2, 6))]
    actions = []
    for h in hooks:
        if rng.random() < 0.4:
            actions.append(dict(oid="o", hook=h, k=rng.randint(0, 3), do=[dict(op="q", g="g", what=rng.choice(["glue", "has_glue", "has_boxed"])) for _ in range(2)]))
    return dict(names=names, ops=ops, omit=rng.random() < 0.15, actions=actions, outputs=["w", "x"], env=dict(seed=1))


def query(rng, hooks):
    if rng.random() < 0.25:
        op = dict(op="write", g="g", tag=rng.choice(["w", "w", "x", "missing"]), glue=rng.random() < 0.5)
        if rng.random() < 0.4:
            op["fault"] = dict(kind="error", op=rng.choice(["read", "open_r", "open_w", "write", "fsync", "rename"]), k=rng.randint(0, 3), e=rng.randint(0, 3))
    else:
        op = dict(op="q", g="g", what=rng.choice(G.QUERIES))
    x = rng.random()
    if x < 0.15:
        op["interrupt"] = [G.where(rng, 4.3) if op["op"] == "q" else int(10 ** rng.uniform(0, 4.3)), rng.choice(["KeyboardInterrupt", "MemoryError"])]
    elif x < 0.3 and hooks:
        op["cb"] = [rng.choice(hooks), 0, rng.choice(["CallbackFailed", "CallbackAbort", "ValueError"])]
    elif x < 0.35:
        op["native"] = [rng.randint(0, 4), "RuntimeError"]
    return op


def run(plan, res):
    from props.h02 import life_failing

    head = [dict(op="opt", o="o", names=plan["names"], key="g"), dict(op="new", g="g", o="o", omit=plan["omit"])]
    ops = head + plan["ops"]
    G.lay_out(plan)
    st, rep = core.life(life_failing, plan, ops)
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the run did not end ({st})")
        return
    res.faults.update(rep["fired"])
    done: list = []
    cache: dict = {}
    failed = False
    kinds = set()
    n = 0
    for op, r, depth in rep["entries"]:
        res.steps += 1
        if op["op"] == "proc":
            if r[0] == "ok":
                done.append({k: v for k, v in op.items()})
            continue
        if op["op"] not in ("q", "write"):
            continue
        if r[0] == "exc":
            injected = any(k in op for k in ("interrupt", "native", "cb", "fault")) or op.get("tag") == "missing"
            res.probes["failed-write" if op["op"] == "write" else "failed-query"] += 1
            failed = True
            if injected:
                continue
        if op["op"] == "write":
            res.probes["write"] += 1
            if r[0] == "ok":
                continue  # (what gets published is the subject of F01..F05)
        res.probes["asked"] += 1
        if depth:
            res.probes["nested"] += 1
        if failed:
            res.probes["asked-after-failure"] += 1
        kinds.add(op.get("what"))
        n += 1
        key = (len(done), op.get("what", "write"))
        if key not in cache:
            G.lay_out(plan)
            q = {k: v for k, v in op.items() if k in ("op", "g", "what", "tag", "glue")}
            st, twin = core.life(life_failing, dict(plan, actions=[]), head + done + [q])
            res.lives += 1
            if st != "ok":
                res.violate("hang", f"the twin did not end ({st})")
                return
            cache[key] = twin["results"]["g"][-1][1]
        if cache[key] != r:
            res.violate("impure", f"{key[1]} after {len(done)} headers, operation {n}:{G.diff(r, cache[key])}")
            return
    res.nontrivial = n >= 3 and len(kinds) >= 2
    res.states.add(digest([(op["op"], op.get("what"), r[0], d) for op, r, d in rep["entries"]]))
    res.log.append(("asked", n, digest(rep["entries"])))
