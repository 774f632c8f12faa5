"""F03: generation never reports success while an output is missing, malformed or stale."""
from props import outputs as O
from props.f01 import gen_step
from props.outputs import Engine, REAL, STUBS, TOKENS  # noqa: F401
from sim.headers import gen_options

RULE = ("outputs with missing files, directories in place of files, or malformed marker pairs (none, open only, close only, reversed, nested, both on one line, swapped tokens, "
        "misspelt, stray extra close or open, unterminated second region), in combination with well-formed ones and with failing file operations; directed runs enumerate every malformation on every output, and every failing operation of a publication whose length is that of the previous one; "
        "success must imply that every output is published, a rejected file keeps its bytes; non-trivial: an output is bad or a fault fired")
STATE_MEASURE = "digest of (operation log, outcome, fault kinds) of one generator run"
BUDGET = {"quick": 32, "thorough": 600}
MUST_HIT = ["raised", "completed", "rejected-markers"]

MALFORMED = ["none", "empty", "open_only", "close_only", "reversed", "nested", "one_line", "one_line_rev", "wrong_token", "misspelt", "extra_close", "extra_open", "unterminated_second",
             "close_missing_slash", "absent", "dir", "close_then_pair", "case"]


def malformed_text(kind, role, indent="    ", user="user line é\n", eol="\n"):
    t = TOKENS[role]
    o, c = f"{indent}// <{t}> // begin{eol}", f"{indent}// </{t}> // end{eol}"
    body = f"{indent}old code{eol}"
    return {
        "none": user * 2,
        "empty": "",
        "open_only": user + o + body + user,
        "close_only": user + c + body + user,
        "reversed": user + c + body + o + user,
        "nested": user + o + body + o + body + c + body + c + user,
        "one_line": user + f"{indent}// <{t}></{t}>{eol}" + user,
        "one_line_rev": user + f"{indent}// </{t}><{t}>{eol}" + user,
        "wrong_token": user + o.replace(t, t + "x") + body + c.replace(t, t + "x") + user,
        "misspelt": user + o.replace("<", "< ") + body + c.replace("</", "< /") + user,
        "extra_close": user + o + body + c + user + c + user,
        "extra_open": user + o + body + c + user + o + user,
        "unterminated_second": user + o + body + c + user + o + body + user + "tail",
        "close_missing_slash": user + o + body + o + user,
        "close_then_pair": user + c + user + o + body + c + user,
        "case": user + o.upper() + body + c.upper() + user,
    }[kind]


def break_file(f, role, kind, indent="    ", eol="\n"):
    """the output of one role becomes malformed; regions of other roles in the same file stay well-formed"""
    if kind == "absent":
        f["absent"] = True
        return
    if kind == "dir":
        f["dir"] = True
        f["link"] = False
        return
    if kind == "empty" and len(f["roles"]) > 1:
        kind = "none"
    keep = [s for s in f["segs"] if "t" in s or s["r"] != role]
    text = malformed_text(kind, role, indent, eol=eol)
    if kind == "empty":
        keep = []
        f["segs"] = []
    else:
        if keep and "r" in keep[-1]:
            keep[-1].pop("noeol", None)
        elif keep and keep[-1]["t"] and not keep[-1]["t"].endswith("\n"):
            keep[-1]["t"] += "\n"
        f["segs"] = keep + [{"t": text}]
    f["broken"] = sorted(set(f.get("broken", [])) | {role})


def directed(tier):
    import random

    out = []
    for kind in MALFORMED:
        for role in ("pydef", "stub", "glue"):
            for sep in (False, True):
                for eol in ("\n", "\r\n"):
                    if eol == "\r\n" and kind in ("absent", "dir", "none", "empty"):
                        continue
                    rng = random.Random(H(kind, role, sep))
                    files = [O.gen_file(rng, "b.cpp", ["pydef"] if sep else ["pydef", "glue"], multi=False), O.gen_file(rng, "b.pyi", ["stub"], multi=False)]
                    if sep:
                        files.append(O.gen_file(rng, "g.h", ["glue"], multi=False))
                    for f in files:
                        f["link"] = False
                    for f in files:
                        if role in f["roles"]:
                            break_file(f, role, kind, eol=eol)
                    out.append(dict(files=files, glue_arg="explicit" if sep else rng.choice(["explicit", "empty"]), opts=["boxed_all"],
                                    headers=[dict(name="h0.h", text="void f(int& a);\n")], env=dict(bufsize=8192, seed=3, pid=31337),
                                    steps=[dict(op="gen", api="files", headers=[0], faults=[])]))
    # what was published before has exactly the length of what cannot be published now
    for op in ("open_w", "write", "fsync", "close", "chmod", "rename"):
        for k in range(3):
            for a, b in (("x = 1\n", "x = 2\n"), ("é\n", "è\n")):
                rng = random.Random(H(op, k))
                files = [O.gen_file(rng, n, [r], multi=False) for n, r in (("b.cpp", "pydef"), ("b.pyi", "stub"), ("g.h", "glue"))]
                out.append(dict(files=files, glue_arg="explicit", opts=["boxed_all"], headers=[dict(name="h0.h", text="void f(int& a);\n"), dict(name="h1.h", text="void f(char& a);\n".replace("char", "long"))],
                                env=dict(bufsize=8192, seed=4, pid=31337),
                                steps=[dict(op="gen", api="files", headers=[0], faults=[], post=dict(pydef=a, stub=a)),
                                       dict(op="gen", api="files", headers=[k % 2], faults=[dict(op=op, k=k, kind="error", e=k)], post=dict(pydef=b, stub=b))]))
    return out


def H(*a):
    from sim.core import H as h

    return h(*a)


def gen(rng, tier):
    files, glue_arg = O.gen_layout(rng)
    headers = O.gen_headers_pool(rng, rng.randint(1, 3))
    if rng.random() < 0.65:
        for _ in range(rng.choice([1, 1, 2])):
            f = rng.choice(files)
            if f.get("absent") or f.get("dir") or f.get("broken"):
                continue
            break_file(f, rng.choice(f["roles"]), rng.choice(MALFORMED), rng.choice(["", "    ", "\t"]), rng.choice(["\n", "\n", "\r\n"]))
    steps = [gen_step(rng, len(headers), fault_rate=0.5, post_rate=0.4) for _ in range(rng.randint(1, 3))]
    for s in steps:
        # here the interesting faults are errors, not kills
        for f in s["faults"]:
            if f["kind"].startswith(("crash", "power")) and rng.random() < 0.7:
                f["kind"] = rng.choice(["error", "partial", "full", "dead"])
        if rng.random() < 0.12:
            s["post"] = {rng.choice(["pydef_raise", "stub_raise"]): True}
    return dict(files=files, glue_arg=glue_arg, opts=gen_options(rng, nmax=2), headers=headers, env=O.gen_env(rng), steps=steps, omit=rng.random() < 0.1)


def run(plan, res):
    e = Engine(plan, res, "F03")
    e.run()
    if any(f.get("absent") or f.get("dir") or f.get("broken") for f in plan["files"]):
        res.nontrivial = True
        res.probes["rejected-markers"] += 1
