"""A01: an amalgamated header contains every reachable local header exactly once."""
from sim.core import get
from props import amalg as A
from props import outputs as O
from props.amalg import REAL, STUBS  # noqa: F401

RULE = ("random include graphs (cycles, diamonds, the same file via several paths and symbolic links, several search directories with shadowed names, prefixes, angle includes) with missing headers and failing, short or interrupted reads; "
        "the result is compared line by line with an independent depth-first include model; non-trivial: at least three files were reached, or a header was missing, or a fault fired")
STATE_MEASURE = "digest of (operation log, outcome, fault kinds) of one amalgamation"
BUDGET = {"quick": 30, "thorough": 500}
MUST_HIT = ["completed", "raised", "missing-header", "completed-despite-faults"]


def read_fault(rng):
    kind = rng.choice(["error", "short", "short", "interrupt", "dead", "error", "crash_before"])
    return dict(kind=kind, op=rng.choice(["read", "open_r", "read", "close"]), k=min(int(rng.expovariate(0.3)), 25), e=rng.randint(0, 3))


def gen(rng, tier):
    g = A.norm_graph(A.gen_graph(rng, rng.choice([4, 8, 12])))
    if rng.random() < 0.25:
        victims = sorted(g["files"])
        v = rng.choice(victims)
        if len(victims) > 1:
            del g["files"][v]
            g["links"] = [x for x in g["links"] if x[1] != v]
    return dict(g=g, env=dict(bufsize=rng.choice([8192, 64, 16]), seed=rng.randint(0, 1 << 30), pid=31337),
                steps=[dict(api=rng.choice(["content", "content", "write"]), faults=[read_fault(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))]) for _ in range(rng.choice([1, 1, 2]))])


def run(plan, res):
    g = plan["g"]
    A.lay_out(g)
    import os

    os.makedirs("tmp", exist_ok=True)
    kind, want, reached = A.model(g)
    res.probes["missing-header"] += kind == "missing"
    if kind == "missing" or reached >= 3:
        res.nontrivial = True
    for n, step in enumerate(plan["steps"]):
        res.steps += 1
        before = get(g["dst"])
        rep, crashed = A.run_life(g, step, plan["env"], res, n)
        if rep is None:
            return
        if crashed:
            continue
        ok = rep["outcome"]["ok"]
        if ok and kind == "missing":
            res.violate("missing-header-ignored", f"step {n}: amalgamation succeeded although {want} is missing")
        if not ok and kind == "ok" and not A.harmful(rep):
            res.violate("spurious-failure", f"step {n}: {rep['outcome']['exc']}; faults {rep['fired']}")
        after = get(g["dst"])
        if not ok and after != before:
            res.violate("published-despite-failure", f"step {n}: the amalgamation failed ({rep['outcome']['exc']}) but the destination changed: {after[:100]!r}" if after is not None else "destination removed")
        if ok and kind == "ok":
            content = rep["outcome"]["content"] if step["api"] == "content" else (after or b"").decode("utf-8", "replace")
            got = A.significant(content)
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                res.violate("wrong-content", f"step {n}: line {i}: got {got[i:i + 2]} want {want[i:i + 2]} ({len(got)} vs {len(want)} lines); faults {rep['fired']}")


_ = O
