"""F02: an output file is always wholly old or wholly new under crash or I/O error."""
from props import outputs as O
from props.f01 import gen_step
from props.outputs import Engine, REAL, STUBS  # noqa: F401
from sim.headers import gen_options

LEVEL = "fault_enumeration"
RULE = ("directed runs enumerate every fault kind at each of the first operations of every kind (open, read, write, fsync, close, rename, chmod, unlink) of a base "
        "scenario, single and twice in a row; random runs place 1-3 faults (error, short or partial transfer, kill before/in/after, power loss, interrupt, full disk, dead disk) "
        "anywhere in random histories; non-trivial: a fault really fired and the event log is new")
STATE_MEASURE = "digest of (operation log, outcome, fault kinds) of one generator run"
BUDGET = {"quick": 34, "thorough": 600}
MUST_HIT = ["killed", "raised", "completed-despite-faults"]


def base(kind, where, bufsize=64, two=False):
    import random

    rng = random.Random(7)
    files, glue_arg = O.gen_layout(rng)
    for f in files:
        f["link"] = False
    f = dict(kind=kind, **where)
    steps = [dict(op="gen", api="files", headers=[0], faults=[f])]
    if two:
        steps.append(dict(op="gen", api="files", headers=[0, 1], faults=[dict(f)]))
    return dict(files=files, glue_arg=glue_arg, opts=["boxed_all"], headers=[dict(name="h0.h", text="void f(int& a);\nvoid é();\n"), dict(name="h1.h", text="struct S { int a = 1; };\n")],
                env=dict(bufsize=bufsize, seed=11, pid=31337), steps=steps)


def directed(tier):
    out = []
    for op in ("write", "rename", "open_w", "fsync", "close", "read", "open_r", "chmod", "truncate", "unlink"):
        for k in range(4 if tier == "quick" else 12):
            for kind in O.FAULT_KINDS:
                if kind in ("short", "partial", "crash_mid", "power_mid") and op not in ("write", "read"):
                    continue
                if op in ("read", "open_r", "chmod") and kind.startswith("power") and tier == "quick":
                    continue
                for e in range(1 if tier == "quick" else 3):
                    out.append(base(kind, dict(op=op, k=k, e=e), two=tier != "quick"))
    return out


def gen(rng, tier):
    files, glue_arg = O.gen_layout(rng)
    headers = O.gen_headers_pool(rng, rng.randint(1, 3))
    steps = [gen_step(rng, len(headers), fault_rate=0.95, post_rate=0.35) for _ in range(rng.randint(1, 4))]
    return dict(files=files, glue_arg=glue_arg, opts=gen_options(rng, nmax=2), headers=headers, env=O.gen_env(rng), steps=steps,
                omit=rng.random() < 0.1, abs=rng.random() < 0.3)


def run(plan, res):
    Engine(plan, res, "F02").run()
