"""V02: binding validation removes exactly the directories it was told to."""
import os

from props import validate as V
from props.validate import REAL, STUBS, gen, directed  # noqa: F401

LEVEL = "fault_enumeration"
RULE = ("directed runs enumerate every step x fate of its child x removal, reuse and directory settings; random runs add file faults, leftovers, relative and absolute directories, other current directories and sequences; "
        "the whole scratch tree is compared before and after each validation; non-trivial: a fault fired or a child failed")
STATE_MEASURE = V_STATE = "digest of (operation log, verdict, child steps) of one validation"
BUDGET = {"quick": 32, "thorough": 500}
MUST_HIT = ["returned-True", "returned-False", "raised", "kept", "removed"]
DESTRUCTIVE = {"open_w", "write", "rename", "unlink", "mkdir", "rmdir", "chmod", "truncate", "link", "utime"}


def run(plan, res):
    V.lay_out(plan)
    for n, step in enumerate(plan["steps"]):
        res.steps += 1
        r = V.step_life(plan, step, res, n)
        if r is None:
            return
        before, after, rep, crashed, outcome = r
        if rep["escapes"]:
            res.violate("escape", f"step {n}: {rep['escapes'][:3]}")
        w = V.workdir(step)
        if w is None:
            new = sorted(p for p in after if p.startswith("tmp" + os.sep) and p not in before and p.count(os.sep) == 1)
            if len(new) > 1:
                res.violate("several-work-dirs", f"step {n}: {new}")
            w = new[0] if new else None
        # nothing outside of the work directory is touched
        for p in set(before) | set(after):
            if p not in before and after[p][0] == "d" and w is not None and w.startswith(p + os.sep):
                continue  # (a missing parent)
            if before.get(p) != after.get(p) and not V.inside(p, w):
                res.violate("outside-touched", f"step {n} ({outcome}): {p}: {str(before.get(p))[:60]} -> {str(after.get(p))[:60]}")
                break
        if crashed:
            continue
        o = rep["outcome"]
        exists = w is not None and w in after
        if o["ok"] and o["value"]:
            if exists == step["on_success"]:
                res.violate("wrong-removal", f"step {n}: success, removal on success {step['on_success']}, but the work directory {'exists' if exists else 'is gone'}; faults {rep['fired']}")
        elif o["ok"]:
            if exists == step["on_failure"]:
                res.violate("wrong-removal", f"step {n}: failure, removal on failure {step['on_failure']}, but the work directory {'exists' if exists else 'is gone'}; faults {rep['fired']}")
        res.probes["kept" if exists else "removed"] += 1
        # leftovers
        if step["work"] is not None and not step["hack"]:
            for c in rep["vlog"]:
                if c["step"] == "configure" and c["listing"]:
                    stale = [f for f in c["listing"] if V_leftover(f, before, w)]
                    if stale:
                        res.violate("leftovers", f"step {n}: the work directory was to be recreated, but still holds {stale}")
        if o["ok"] and step["hack"] and step["work"] is not None and exists and before.get(os.path.join(w, "code.cpp")) is not None:
            if after.get(os.path.join(w, "code.cpp")) != before.get(os.path.join(w, "code.cpp")):
                res.violate("reuse-overwrote-code", f"step {n}: reuse was requested, but code.cpp was rewritten")
        if step["hack"] and exists and o["ok"]:
            gone = [p for p in before if V.inside(p, w) and p not in after]
            if gone:
                res.violate("reuse-lost-files", f"step {n}: reuse was requested, but {gone[:3]} disappeared")
        if res.violations:
            return


def V_leftover(f, before, w) -> bool:
    p = os.path.join(w, f)
    return p in before and (os.path.basename(f) in ("CMakeCache.txt", "obj.o") or "stale" in f) or (f.endswith(".so") and p in before)
