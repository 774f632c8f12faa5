"""F07: a failing stub formatter never costs the stub nor the run."""
from props import outputs as O
from props.f01 import gen_step
from props.outputs import Engine, STUBS  # noqa: F401
from sim.headers import gen_options

REAL = O.REAL + ["black (in process)"]
RULE = ("generation with automatic stub formatting, over stub paths with spaces, quotes, shell metacharacters, globs, variables and leading dashes, PATH set, unset or empty, and every fate of the formatter "
        "(success, absent, error exit, killed before or after its effect, unspawnable), combined with histories and file faults; directed runs enumerate path x fate; decoy files that a mis-split path would hit must stay untouched; "
        "non-trivial: the formatter was run or its fate is not success")
STATE_MEASURE = "digest of (operation log, outcome, fault kinds) of one generator run"
BUDGET = {"quick": 32, "thorough": 600}
MUST_HIT = ["completed", "fate:ok", "fate:absent", "fate:exit", "fate:killed", "fate:unspawnable"]

STUBS_NAMES = ["b.pyi", "my stub.pyi", "a;b.pyi", "a&b.pyi", "$HOME.pyi", "q'uote.pyi", 'dq"uote.pyi', "star*.pyi", "-v.pyi", "--help.pyi", "par(en).pyi", "back`tick.pyi",
               "é日本.pyi", "pipe|x.pyi", "gt>x.pyi", "tab\tx.pyi", "sub dir/x y.pyi", "percent%s.pyi", "brace{0}.pyi", "hash#.pyi", "back\\slash.pyi", "amp&&rm.pyi", "nl\nx.pyi", " lead.pyi", " in dir/y.pyi", "tail dir /z.pyi", "two  spaces.pyi", "e\u0301.pyi", "%41.pyi", "~home.pyi", "#x.pyi", "a=b.pyi", "[ab].pyi", "x.PYI.pyi"]
DECOYS = {"my": "x=1\n", "stub.pyi": "x  =  1\n", "a": "x  =1\n", "b.pyi.py": "y  =  1\n", "starfish.pyi": "z  =  1\n", "x.pyi": "x  =  1\n", "sub": "", "x": "k  =  1\n", "dir/x": "k =   1\n", "y.pyi": "k =  1\n"}
FATES = [dict(kind="ok"), dict(kind="absent"), dict(kind="exit", e=0), dict(kind="exit", e=2, when="after"), dict(kind="killed", e=0), dict(kind="killed", e=1, when="after"),
         dict(kind="unspawnable", e=0), dict(kind="unspawnable", e=1), dict(kind="unspawnable", e=2)]
ENVS = [{}, {"PATH": None}, {"PATH": ""}, {"PATH": "/usr/bin:/bin"}, {"PATH": ":/x y"}]


def decoys_for(name):
    d = {}
    for k, v in DECOYS.items():
        if k == name or k + "/" in name or name.startswith(k + "/"):
            continue
        if k == "sub" or k.startswith("dir"):
            continue
        d[k] = v
    return d


def directed(tier):
    import random

    out = []
    for name in STUBS_NAMES:
        for i, fate in enumerate(FATES):
            rng = random.Random(5)
            files = [O.gen_file(rng, "b.cpp", ["pydef", "glue"], multi=False), O.gen_file(rng, name, ["stub"], multi=False)]
            files[1]["segs"] = [{"t": "import x\n"}, dict(r="stub", indent="", indent2="", pre="# ", suf="", suf2="", eol="\n", old="old   = 1\n"), {"t": "y: int\n"}]
            for f in files:
                f["link"] = False
            out.append(dict(files=files, glue_arg="empty", opts=[], headers=[dict(name="h0.h", text="int f(int a=1);\nstruct A { int x = 1; };\n")], decoys=decoys_for(name),
                            env=dict(bufsize=8192, seed=3, pid=31337),
                            steps=[dict(op="gen", api="files", headers=[0], faults=[], black=True, default_fate=fate, environ=ENVS[i % len(ENVS)], line_length=[88, 40, 120][i % 3])]))
    for environ in ENVS:
        p = dict(out[0], steps=[dict(op="gen", api="files", headers=[0], faults=[], black=True, environ=environ)])
        out.append(p)
    return out


def gen(rng, tier):
    name = rng.choice(STUBS_NAMES)
    files, glue_arg = O.gen_layout(rng, names=("b.cpp", name, "g.h"))
    for f in files:
        if f["roles"] == ["stub"] and rng.random() < 0.8:
            # text that the formatter can parse
            for s in f["segs"]:
                if "t" in s:
                    s["t"] = rng.choice(["import   x\n", "y:   int\n# é\n", "\n\n", ""])
                else:
                    s["old"] = rng.choice(["", "z  = 1\n"])
                    s["indent"] = s["indent2"] = ""
            f["segs"] = [s for s in f["segs"] if "r" in s or s["t"]]
    n = rng.randint(1, 3)
    headers = O.gen_headers_pool(rng, n)
    steps = []
    for _ in range(rng.randint(1, 3)):
        s = gen_step(rng, n, fault_rate=0.25, post_rate=0.15)
        s.pop("locale", None)
        s["black"] = True
        s["line_length"] = rng.choice([88, 60, 120])
        s["environ"] = rng.choice(ENVS)
        s["fates"] = [rng.choice(FATES) for _ in range(rng.randint(0, 4))]
        s["default_fate"] = rng.choice(FATES[:1] * 3 + FATES)
        steps.append(s)
    return dict(files=files, glue_arg=glue_arg, opts=gen_options(rng, nmax=2), headers=headers, env=O.gen_env(rng), steps=steps, decoys=decoys_for(name), omit=rng.random() < 0.1)


class E7(Engine):
    def extra(self, n, step, ref, before, after, ok, crashed, rep):
        for c in rep["calls"]:
            self.res.probes["fate:" + c["fate"]] += 1
            self.res.nontrivial = True
        if ok:
            bad = [c for c in rep["calls"] if c["argv"][0] == "black" and stub_name(self.plan) not in [base(a) for a in c["argv"]]]
            if bad:
                self.res.violate("formatter-wrong-file", f"step {n}: formatter called without the stub {stub_name(self.plan)!r}: {bad[0]}")


def base(a):
    import os

    return os.path.relpath(os.path.realpath(a)) if a.startswith("/") or "/" in a or a else a


def stub_name(plan):
    from sim.core import stable_name

    import os

    f = next(f for f in plan["files"] if "stub" in f["roles"])
    return stable_name(os.path.relpath(os.path.realpath(f["name"])))


def run(plan, res):
    E7(plan, res, "F07").run()
