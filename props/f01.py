"""F01: hand-written text around generated regions survives every generation history."""
from props import outputs as O
from props.outputs import Engine, REAL, STUBS  # noqa: F401
from sim.headers import gen_options

RULE = ("a run is a random history (2-6 steps) of user edits, header edits and generator runs, with random file layouts (line endings, non-ASCII and control "
        "characters, several regions, missing final newline, symlinks) and random file faults, kills and power losses; every output file is compared byte for byte "
        "with the region model after every step; non-trivial: at least one fault fired or at least two generations changed a file, and its event log is new")
STATE_MEASURE = "digest of (operation log, outcome, fault kinds) of one generator run"
BUDGET = {"quick": 32, "thorough": 600}
MUST_HIT = ["killed", "raised", "completed", "completed-despite-faults"]


def gen(rng, tier):
    files, glue_arg = O.gen_layout(rng)
    if rng.random() < 0.08:  # a file in another encoding than UTF-8
        texts = [seg for f in files for seg in f["segs"] if seg.get("t")]
        if texts:
            seg = rng.choice(texts)
            seg["t"] = rng.choice(["# caf\udce9\n", "// \udcff\udcfe\n"]) + seg["t"]
    headers = O.gen_headers_pool(rng, rng.randint(1, 3))
    steps = []
    for _ in range(rng.randint(2, 6)):
        x = rng.random()
        if x < 0.25:
            steps.append(dict(op="edit", file=rng.randint(0, 2), seg=rng.randint(0, 3), text=O.gen_text(rng, rng.choice(["\n", "\r\n"]), last=True)))
        elif x < 0.4:
            i = rng.randint(0, 2)
            steps.append(dict(op="edit_header", i=i, text=O.gen_headers_pool(rng, 1, tag=f"e{rng.randint(0, 99)}")[0]["text"]))
        else:
            steps.append(gen_step(rng, len(headers)))
    if not any(s["op"] == "gen" for s in steps):
        steps.append(gen_step(rng, len(headers)))
    return dict(files=files, glue_arg=glue_arg, opts=gen_options(rng, nmax=3), headers=headers, env=O.gen_env(rng), steps=steps,
                omit=rng.random() < 0.15, abs=rng.random() < 0.3)


def gen_step(rng, nh, fault_rate=0.55, post_rate=0.5):
    api = rng.choice(["files", "files", "gen", "file"])
    hs = rng.sample(range(nh), rng.randint(1, nh)) if api != "file" else [rng.randrange(nh)]
    s = dict(op="gen", api=api, headers=hs, faults=O.gen_faults(rng, len(hs), fault_rate))
    if rng.random() < post_rate:
        s["post"] = {k: rng.choice(O.CODES) for k in ("pydef", "stub") if rng.random() < 0.7}
    if rng.random() < 0.2:
        s["locale"] = rng.choice(["utf-8", "ascii", "latin-1", "cp1252"])
    return s


def run(plan, res):
    Engine(plan, res, "F01").run()
    if sum(1 for e in res.log if e[1] == "gen") >= 2:
        res.nontrivial = True
