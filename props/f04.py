"""F04: re-running generation converges: recovery after faults, idempotence, no litter."""
import os

from props import outputs as O
from props.f01 import gen_step
from props.outputs import Engine, REAL, STUBS  # noqa: F401
from sim.core import tree
from sim.headers import gen_options

RULE = ("1-4 generations with faults (errors, kills, power losses, interrupts, full or dying disk), of varying headers, interleaved with user edits, followed by two identical undisturbed runs: "
        "the first must give exactly the model's content for an undisturbed run from the user's text, the second must leave inode, modification time and bytes of every output alone; "
        "runs that end by themselves leave no file behind; non-trivial: a fault fired before the clean runs")
STATE_MEASURE = "digest of (operation log, outcome, fault kinds) of one generator run"
BUDGET = {"quick": 32, "thorough": 600}
MUST_HIT = ["killed", "raised", "converged"]


def gen(rng, tier):
    files, glue_arg = O.gen_layout(rng)
    headers = O.gen_headers_pool(rng, rng.randint(1, 3))
    steps = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.2:
            steps.append(dict(op="edit", file=rng.randint(0, 2), seg=rng.randint(0, 3), text=O.gen_text(rng, "\n", last=True)))
        steps.append(gen_step(rng, len(headers), fault_rate=0.9, post_rate=0.3))
    api = rng.choice(["files", "gen"])
    # with more than one header, write_generated_code_for_files publishes after each header: the files are then
    # legitimately rewritten by a second run; the "nothing is rewritten" part uses runs that publish once
    hs = list(range(len(headers))) if api == "gen" else [0]
    clean = dict(op="gen", api=api, headers=hs, faults=[])
    if rng.random() < 0.4:
        clean["post"] = {k: rng.choice(O.CODES) for k in ("pydef", "stub") if rng.random() < 0.7}
    if rng.random() < 0.3:
        clean["faults"] = [dict(op=rng.choice(["read", "write"]), k=rng.randint(0, 6), kind="short")]
    steps += [clean, dict(clean, again=True)]
    return dict(files=files, glue_arg=glue_arg, opts=gen_options(rng, nmax=3), headers=headers, env=O.gen_env(rng), steps=steps,
                omit=rng.random() < 0.15, abs=rng.random() < 0.3)


class E4(Engine):
    def stats(self):
        out = {}
        for f in self.plan["files"]:
            t = self.target(f)
            if os.path.isfile(t):
                st = os.stat(t)
                out[t] = (st.st_ino, st.st_mtime_ns)
        return out

    def gen(self, n, step):
        if step.get("again"):
            for f in self.plan["files"]:
                if os.path.isfile(self.target(f)):
                    os.utime(self.target(f), (1_100_000_000, 1_100_000_000))
            st0, t0 = self.stats(), tree(".")
            super().gen(n, step)
            if self.res.violations:
                return
            st1, t1 = self.stats(), tree(".")
            if t0 != t1:
                diff = sorted(k for k in set(t0) | set(t1) if t0.get(k) != t1.get(k))
                self.res.violate("not-idempotent", f"step {n}: a second identical run changed {diff}")
            elif st0 != st1:
                diff = sorted(k for k in st0 if st0[k] != st1.get(k))
                self.res.violate("rewritten", f"step {n}: a second identical run rewrote unchanged files {diff}")
            else:
                self.res.probes["converged"] += 1
            return
        super().gen(n, step)


def run(plan, res):
    E4(plan, res, "F04").run()
