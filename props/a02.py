"""A02: the amalgamated file is old or new, converges, and is left alone if unchanged."""
import os

from sim import core
from sim.core import get, put, tree
from props import amalg as A
from props import outputs as O
from props.amalg import REAL, STUBS  # noqa: F401

LEVEL = "fault_enumeration"
RULE = ("histories of header edits and amalgamations with a destination that is absent, old, current, read-only by mode or a symbolic link; directed runs enumerate every fault kind at each of the first operations of every kind, and changes of one line of large headers at the same length; "
        "the destination is compared with the last complete content and the undisturbed result, its modification time shows rewriting; non-trivial: a fault fired or an unchanged re-run happened, and the event log is new")
STATE_MEASURE = "digest of (operation log, outcome, fault kinds) of one amalgamation"
BUDGET = {"quick": 30, "thorough": 500}
MUST_HIT = ["completed", "raised", "killed", "unchanged-rerun"]


def directed(tier):
    import random

    out = []
    for op in ("write", "rename", "open_w", "fsync", "close", "read", "open_r", "chmod", "truncate", "unlink"):
        for k in range(4 if tier == "quick" else 10):
            for kind in O.FAULT_KINDS:
                if kind in ("short", "partial", "crash_mid", "power_mid") and op not in ("write", "read"):
                    continue
                for first in (None, "old content é\n"):
                    rng = random.Random(3)
                    g = A.norm_graph(A.gen_graph(rng, 4))
                    g["dst"] = "out.h"
                    out.append(dict(g=g, first=first, mode=0o644, link=False, env=dict(bufsize=64, seed=5, pid=31337),
                                    steps=[dict(op="run", faults=[dict(kind=kind, op=op, k=k, e=k)]), dict(op="run", faults=[]), dict(op="run", faults=[])]))
    # large headers of which one line changes, at the same length
    for size in (4, 30, 150, 700, 3000):
        for at in (0, 0.5, 0.97, 1):
            rng = random.Random(size)
            g = A.norm_graph(A.gen_graph(rng, 3))
            g["dst"] = "out.h"
            f = sorted(p for p in g["files"] if p.endswith(g["main"]))[0]
            g["files"][f]["items"] = [{"t": f"int line_{i}_é; // abc"} for i in range(size)]
            edit = dict(op="edit", i=0, file=f, text_at=min(size - 1, int(at * size)), text="", how="same-length")
            out.append(dict(g=g, first=None, mode=0o644, link=False, env=dict(bufsize=8192, seed=6, pid=31337), steps=[dict(op="run", faults=[]), edit, dict(op="run", faults=[]), dict(edit), dict(op="run", faults=[]), dict(op="run", faults=[])]))
    return out


def gen(rng, tier):
    g = A.norm_graph(A.gen_graph(rng, rng.choice([3, 5, 8])))
    steps = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.3:
            steps.append(dict(op="edit", i=rng.randint(0, 9), text=rng.choice(["int added_%d;" % rng.randint(0, 5), "// é ü 日本", ""]), how=rng.choice(["append", "append", "pop", "pop", "front", "clear", "same-length", "swap", "eol", "same-length"])))
        elif rng.random() < 0.1:
            steps.append(dict(op="user_dst", text=rng.choice(["", "user wrote this\n", "é\n", "trunc"])))
        else:
            s = dict(op="run", faults=O.gen_faults(rng, 1, 0.5))
            if rng.random() < 0.2:
                s["locale"] = rng.choice(["ascii", "latin-1", "cp1252"])
            steps.append(s)
    steps.append(dict(op="run", faults=[]))
    if rng.random() < 0.15:
        f = g["files"][rng.choice(sorted(g["files"]))]
        f["items"] += [{"t": f"// {i} {'é long ' * rng.randint(1, 12)}"} for i in range(rng.choice([30, 100, 400, 1200]))]
    return dict(g=g, first=rng.choice([None, None, "", "old\n", "// THIS FILE WAS GENERATED AUTOMATICALLY. DO NOT EDIT.\n"]), mode=rng.choice([0o644, 0o600, 0o664]), link=rng.random() < 0.12,
                env=dict(bufsize=rng.choice([8192, 64, 16]), seed=rng.randint(0, 1 << 30), pid=31337), steps=steps)


def life_content(ctx, g):
    """the undisturbed result"""
    return A.life_amalg(ctx, g, dict(api="content"), dict(seed=0))


def run(plan, res):
    g = plan["g"]
    os.makedirs("tmp")
    A.lay_out(g)
    dst = g["dst"]
    real = dst + ".real" if plan["link"] else dst
    if plan["first"] is not None:
        put(real, plan["first"].encode(), plan["mode"])
        if plan["link"]:
            os.symlink(os.path.basename(real), dst)
    leftovers: set = set()
    for n, step in enumerate(plan["steps"]):
        res.steps += 1
        if step["op"] == "edit":
            fs = sorted(g["files"])
            f = g["files"][step.get("file") if step.get("file") in fs else fs[step["i"] % len(fs)]]
            its = f["items"]
            how = step.get("how", "append")
            texts = [j for j, it in enumerate(its) if "t" in it]
            if how == "append" or not its:
                its.append({"t": step["text"]})
            elif how == "pop":
                its.pop()
            elif how == "front":
                its.insert(0, {"t": step["text"]})
            elif how == "clear":
                its[:] = [it for it in its if "inc" in it]
            elif how == "same-length" and texts:
                it = its[texts[step.get("text_at", step["i"] % len(texts)) % len(texts)]]
                it["t"] = "".join(chr(ord(c) + 1) if c in "abcdefghijklmnopqrstuvwxy012345678" else c for c in it["t"]) if "#" not in it["t"] else it["t"]
            elif how == "swap" and len(its) > 1:
                its[0], its[-1] = its[-1], its[0]
            elif how == "eol":
                f["noeol"] = not f["noeol"]
            res.probes["edit:" + how] += 1
            A.lay_out(g)
            continue
        if step["op"] == "user_dst":
            put(real if os.path.lexists(dst) or not plan["link"] else dst, step["text"].encode(), plan["mode"])
            continue
        st, ref = core.life(life_content, g)
        if st != "ok":
            res.violate("hang", f"step {n}: amalgamation did not end ({st})")
            return
        want = ref["outcome"]["content"].encode("utf-8") if ref["outcome"]["ok"] else None
        islink = os.path.islink(dst)
        target = real if islink else dst
        old = get(target)
        oldmode = os.stat(target).st_mode & 0o7777 if old is not None else None
        if old is not None:
            os.utime(target, (1_000_000_000, 1_000_000_000))
        ino = os.stat(target).st_ino if old is not None else None
        before = tree(".")
        rep, crashed = A.run_life(g, step, plan["env"], res, n)
        if rep is None:
            return
        after = tree(".")
        ok = not crashed and rep["outcome"]["ok"]
        new = get(target)
        if islink and not os.path.islink(dst):
            res.violate("symlink-replaced", f"step {n}: the destination is not a symbolic link any more")
            return
        if new != old and new != want:
            res.violate("bad-content", f"step {n} ({'killed' if crashed else rep['outcome']}): destination holds {len(new) if new is not None else None} bytes {(new or b'')[:100]!r}, neither old ({len(old) if old is not None else None} bytes) nor new ({len(want or b'')} bytes); faults {rep['fired']}")
            return
        if ok:
            if want is None:
                res.violate("success-despite-failure", f"step {n}: wrote an amalgamation although {ref['outcome']['exc']}")
            elif new != want:
                res.violate("stale-after-success", f"step {n}: reported success but the destination is stale; faults {rep['fired']}")
        elif not crashed and want is not None and not A.harmful(rep):
            res.violate("spurious-failure", f"step {n}: {rep['outcome']['exc']}; faults {rep['fired']}")
        if old is not None and old == want:
            res.probes["unchanged-rerun"] += 1
            res.nontrivial = True
            if new is not None and (os.stat(target).st_mtime != 1_000_000_000 or os.stat(target).st_ino != ino):
                res.violate("rewritten", f"step {n}: the content was unchanged but the destination was rewritten")
        if oldmode is not None and new is not None and os.stat(target).st_mode & 0o7777 != oldmode:
            res.violate("mode-changed", f"step {n}: mode changed from {oct(oldmode)} to {oct(os.stat(target).st_mode & 0o7777)}")
        outs = {os.path.normpath(dst), os.path.normpath(target)}
        for p, e in before.items():
            if p in outs or p in leftovers:
                continue
            if p in after and after[p] != e:
                res.violate("file-changed", f"step {n}: {p} was changed")
            if p not in after:
                res.violate("file-lost", f"step {n}: {p} was removed")
        litter = sorted(p for p in after if p not in before and p not in outs)
        if litter:
            excused = crashed or O.cleanup_failed(rep["fired"])
            leftovers.update(litter)
            res.probes["litter"] += 1
            if not excused:
                res.violate("litter", f"step {n}: left behind {[core.stable_name(x) for x in litter]}; faults {rep['fired']}")
