"""V01: binding validation reports success exactly when every step succeeded."""
from sim import core
from props import validate as V
from props.validate import REAL, STUBS, gen, directed  # noqa: F401

RULE = ("validations with every outcome of each child (success, error exit, killed before or after its effect, absent, unspawnable), undecodable child output, file faults and interrupts, work directories given as relative, absolute, missing or leftover, other current directories and locales, "
        "in sequences; the returned verdict is compared with what the simulated children really saw and returned; non-trivial: a fault fired or a child failed")
STATE_MEASURE = "digest of (operation log, verdict, child steps) of one validation"
BUDGET = {"quick": 32, "thorough": 500}
MUST_HIT = ["returned-True", "returned-False", "raised", "configure:exit", "build:exit", "pytest:exit"]


def run(plan, res):
    V.lay_out(plan)
    refs = {}
    for n, step in enumerate(plan["steps"]):
        res.steps += 1
        # what an undisturbed run in a directory of its own hands to its children
        key = repr((step["cpp"], step["test"], step["module"]))
        if key not in refs:
            st, ref = core.life(V.life_validate, plan, dict(step, work=None, hack=False, fates=[], on_success=False, on_failure=False), True)
            if st != "ok":
                res.violate("hang", f"step {n}: undisturbed validation did not end ({st})")
                return
            refs[key] = ref
        ref = refs[key]
        r = V.step_life(plan, step, res, n)
        if r is None:
            return
        before, after, rep, crashed, outcome = r
        if crashed:
            continue
        o = rep["outcome"]
        want_steps = ["configure", "build"] + (["pytest"] if step["test"] else [])
        got = [(c["step"], c["rc"]) for c in rep["vlog"]]
        all_ok = got == [(s, 0) for s in want_steps]
        if o["ok"] and o["value"] is not True and o["value"] is not False:
            res.violate("no-verdict", f"step {n}: returned {o['value']!r}")
        if o["ok"] and o["value"] and not all_ok:
            res.violate("false-success", f"step {n}: returned success, but the steps were {got} (wanted {want_steps}); fates {step['fates']} faults {rep['fired']}")
        if o["ok"] and o["value"] and all_ok:
            # every child saw the complete files
            by = {c["step"]: c for c in ref["vlog"]}
            for c in rep["vlog"]:
                w = by.get(c["step"])
                if w is None or "files" not in w or "files" not in c:
                    continue
                for k in c["files"]:
                    if k == "module" or k == "code" and step["hack"]:
                        continue
                    if c["files"][k] != w["files"].get(k):
                        res.violate("incomplete-files", f"step {n}: success, but {c['step']} saw {k} = {str(c['files'][k])[:120]} instead of {str(w['files'].get(k))[:120]}; faults {rep['fired']}")
        harmful = any(not k.startswith(("short:", "child-")) for k in rep["fired"])
        w = V.workdir(step)
        import os

        parent_ok = w is None or os.path.isdir(os.path.dirname(w) or ".")
        hack_ok = not step["hack"] or (w is not None and (os.path.join(w, "code.cpp") in before))
        ref_ok = ref["outcome"]["ok"] and ref["outcome"]["value"]
        if not harmful and ref_ok and not step["fates"] and parent_ok and hack_ok and not (o["ok"] and o["value"]):
            res.violate("spurious-failure", f"step {n}: every step succeeds ({got}), but the verdict was: {outcome}; logs {rep['logs'][-2:]}")
        if not harmful and all_ok and o["ok"] and not o["value"]:
            res.violate("false-failure", f"step {n}: all steps ran and succeeded, but the verdict was failure; logs {str(rep['logs'][-1:])[:500]}")
        if not ref_ok and ref["outcome"]["ok"] is False and o["ok"] and o["value"]:
            res.violate("false-success", f"step {n}: success although generation alone raises {ref['outcome']['exc']}")
        if res.violations:
            return
        # (a work directory left in place is the leftover of the next validation)
