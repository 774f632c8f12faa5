"""F05: a multi-header run publishes every header once, in order, consistently."""
from props import outputs as O
from props.outputs import Engine, REAL, STUBS  # noqa: F401
from sim.headers import gen_options, KINDS, SMALL, header

RULE = ("runs of write_generated_code_for_files over 1-5 headers (which may share namespaces, types and boxed types, and may occur in any order), some of which are missing, dangling links, undecodable or rejected by a user callback, "
        "with file faults, kills and power losses; the three outputs must be the complete result for the list on success, or a prefix that stops before the failing header; "
        "the reference is one in-memory generator fed with the same list; non-trivial: at least two headers, and a failure or a fault")
STATE_MEASURE = "digest of (operation log, outcome, fault kinds) of one generator run"
BUDGET = {"quick": 34, "thorough": 600}
MUST_HIT = ["killed", "raised", "completed", "prefix-published"]


def gen(rng, tier):
    files, glue_arg = O.gen_layout(rng)
    n = rng.randint(1, 5)
    headers = []
    for i in range(n):
        name = rng.choice([f"h{i}.h", f"inc/h{i}.h", f"inc/deep/h{i}.hpp", f"inc/same{i}/x.h"])
        headers.append(dict(name=name, text=header(rng, f"h{i}x", rng.choice([1, 2, 3]), rng.choice([KINDS, SMALL]))))
    if n > 1 and rng.random() < 0.2:  # the same contents in two headers
        headers[-1]["text"] = headers[0]["text"]
    order = list(range(n))
    rng.shuffle(order)
    steps = []
    for _ in range(rng.choice([1, 1, 2])):
        s = dict(op="gen", api=rng.choice(["files", "files", "files", "gen"]), headers=order[: rng.randint(1, n)], faults=O.gen_faults(rng, n, 0.5))
        x = rng.random()
        if x < 0.15:
            s["poison"] = f"h{rng.randrange(n)}x0"
        steps.append(s)
    x = rng.random()
    if x < 0.15:
        rng.choice(headers)["missing"] = True
    elif x < 0.27:
        rng.choice(headers)["bad_bytes"] = True
    elif x < 0.36:
        rng.choice(headers)["dangling"] = True  # (a symbolic link to nothing)
    return dict(files=files, glue_arg=glue_arg, opts=gen_options(rng, base=0.7, nmax=4), headers=headers, env=O.gen_env(rng), steps=steps, omit=rng.random() < 0.2)


class E5(Engine):
    def extra(self, n, step, ref, before, after, ok, crashed, rep):
        if len(step["headers"]) >= 2 and (rep["fired"] or ref["fails"] is not None):
            self.res.nontrivial = True
        if not ok and ref["fails"]:
            self.res.probes["prefix-published"] += 1


def run(plan, res):
    E5(plan, res, "F05").run()
