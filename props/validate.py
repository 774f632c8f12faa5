"""Shared parts of the binding validation properties: simulated cmake and pytest acting on the real project files."""
from __future__ import annotations
import io
import os

from sim import core
from sim.core import describe_exc, digest, put, stable_name, tree
from sim.env import Env
from sim.headers import gen_options, header, make_options, SMALL
from sim.proc import killed_or_exit, shell_rc
from props import outputs as O

REAL = ["litgen.validate_bindings_compilation", "header parsing and code generation", "srcml native library", "CPython file objects, shutil and tempfile, on a real scratch directory"]
STUBS = ["cmake and pytest (simulated programs that read and write the real project files)", "fault decisions of every file operation (sim/fs.py)", "process death and power loss", "locale", "clock"]
FATES = [dict(kind="exit", e=0), dict(kind="exit", e=3), dict(kind="exit", e=4, when="after"), dict(kind="exit", e=5), dict(kind="killed", e=0), dict(kind="killed", e=1), dict(kind="absent"), dict(kind="unspawnable", e=0), dict(kind="unspawnable", e=1),
         dict(kind="exit", e=1, when="after"), dict(kind="killed", e=2, when="after"), dict(kind="exit", e=2, when="partial")]
CPP = ["int f(int a = 1);\n", "struct A { int x = 1; };\nvoid g(int& v);\n", "// é ü 日本\nint h();\n", "\n"]
TESTS = [None, "", "def test_a():\n    assert True\n", "\n    import m\n\n    def test_é():\n        assert 'é' == 'é'\n"]
DIRS = [None, "work", "my work", "sub/w", "é", "./work", "ABS", "existing/../work", "work/", "nodir/work"]


def gen_step(rng, fault_rate=0.4, fate_rate=0.6) -> dict:
    s = dict(cpp=rng.choice(CPP + [header(rng, "v%d" % rng.randint(0, 9), 2, SMALL)]), test=rng.choice(TESTS), module=rng.choice(["mymod", "mymod", "validate_bindings_compilation", "_x"]),
             work=rng.choice(DIRS), on_success=rng.random() < 0.5, on_failure=rng.random() < 0.5, logs=rng.random() < 0.3, hack=rng.random() < 0.25,
             fates=[], faults=[], out=rng.choice(["", "ok\n", "é output\n", "bad bytes"]))
    if rng.random() < fate_rate:
        k = rng.randint(0, 2)
        s["fates"] = [dict(kind="ok")] * k + [rng.choice(FATES)]
        if s["fates"][-1]["kind"] == "exit" and rng.random() < 0.5:
            s["fates"][-1] = dict(s["fates"][-1], e=rng.randint(0, 11))
    if rng.random() < fault_rate:
        f = dict(kind=rng.choice(["error", "error", "partial", "short", "full", "dead", "interrupt", "crash_before", "crash_after"]), e=rng.randint(0, 4))
        if rng.random() < 0.6:
            f.update(op=rng.choice(["write", "open_w", "close", "mkdir", "rmdir", "unlink", "write"]), k=min(int(rng.expovariate(0.35)), 14))
        else:
            f["at"] = rng.randint(0, 40)
        s["faults"] = [f]
    if rng.random() < 0.2:
        s["locale"] = rng.choice(["ascii", "latin-1", "cp1252"])
    if rng.random() < 0.15:
        s["cwd"] = "elsewhere"
    return s


def handlers_for(step):
    """cmake: configures (..  -> CMakeCache.txt), builds (code.cpp -> native module in the source folder); pytest: needs the test file and the module"""

    def handlers(env):
        fs = env.fs
        log: list = []
        env.vlog = log
        step_out = {"bad bytes": b"\xff\xfe bad\x80\n"}.get(step["out"], step["out"].encode("utf-8"))

        def rd(p):
            try:
                with io.FileIO(p, "r") as h:
                    return h.readall()
            except OSError:
                return None

        def wr(p, data):
            with io.FileIO(p, "w") as h:
                h.write(data)

        def listing(d):
            out = []
            for base, dirs, files in os.walk(d):
                for n in files:
                    out.append(os.path.relpath(os.path.join(base, n), d))
            return sorted(out)

        def cmake(child, fate):
            args = child.argv[1:]
            rc = killed_or_exit(fate)
            build = "--build" in args
            cwd = os.path.realpath(child.cwd)
            if not fs.inside(cwd):
                fs.escapes.append(("cmake", cwd))
                return 1, b"", b""
            old, fs.quiet = fs.quiet, True
            try:
                if build:
                    i = args.index("--build")
                    bdir = os.path.join(cwd, args[i + 1] if i + 1 < len(args) else ".")
                    cache = rd(os.path.join(bdir, "CMakeCache.txt"))
                    rec = dict(step="build", fate=fate["kind"], rc=rc)
                    log.append(rec)
                    if rc != 0 and fate.get("when", "before") == "before":
                        return shell_rc(child, rc), step_out, b""
                    if cache is None:
                        rec["rc"] = 1
                        return shell_rc(child, 1), b"", b"Error: could not load cache\n"
                    src = cache.decode("utf-8", "surrogateescape").split("\n")[0]
                    code = rd(os.path.join(src, "code.cpp"))
                    lists = rd(os.path.join(src, "CMakeLists.txt"))
                    rec["files"] = dict(code=code, lists=lists)
                    name = None
                    for line in (lists or b"").decode("utf-8", "replace").split("\n"):
                        if "_add_module(" in line:
                            name = line.split("(")[1].split()[0]
                    if code is None or name is None:
                        rec["rc"] = 2
                        return shell_rc(child, 2), b"", b"no rule to make target\n"
                    wr(os.path.join(bdir, "obj.o"), b"object")
                    if rc == 0:
                        wr(os.path.join(src, name + ".so"), b"module " + core.digest(code).encode())
                    return shell_rc(child, rc), step_out, step_out
                srcdir = None
                for a in args:
                    if not a.startswith("-"):
                        srcdir = os.path.realpath(os.path.join(cwd, a))
                if "-S" in args:
                    srcdir = os.path.realpath(os.path.join(cwd, args[args.index("-S") + 1]))
                bdir = cwd
                if "-B" in args:
                    bdir = os.path.realpath(os.path.join(cwd, args[args.index("-B") + 1]))
                rec = dict(step="configure", fate=fate["kind"], rc=rc, listing=listing(srcdir) if srcdir and fs.inside(srcdir) else None)
                log.append(rec)
                if rc != 0 and fate.get("when", "before") == "before":
                    return shell_rc(child, rc), step_out, b""
                if srcdir is None or rd(os.path.join(srcdir, "CMakeLists.txt")) is None:
                    rec["rc"] = 1
                    return shell_rc(child, 1), b"", b"CMake Error: does not contain CMakeLists.txt\n"
                rec["files"] = dict(lists=rd(os.path.join(srcdir, "CMakeLists.txt")))
                wr(os.path.join(bdir, "CMakeCache.txt"), (srcdir + "\n").encode("utf-8", "surrogateescape"))
                return shell_rc(child, rc), step_out, step_out
            finally:
                fs.quiet = old

        def pytest(child, fate):
            rc = killed_or_exit(fate)
            rec = dict(step="pytest", fate=fate["kind"], rc=rc)
            log.append(rec)
            old, fs.quiet = fs.quiet, True
            try:
                files = [a for a in child.argv[1:] if not a.startswith("-")]
                content = [rd(os.path.join(child.cwd, f)) for f in files]
                mods = sorted(f for f in os.listdir(child.cwd) if f.endswith(".so"))
                rec["files"] = dict(test=content[0] if content else None, module=mods)
                if rc != 0 and fate.get("when", "before") == "before":
                    return shell_rc(child, rc), step_out, b""
                if not files or content[0] is None:
                    rec["rc"] = 4
                    return shell_rc(child, 4), b"", b"ERROR: file not found\n"
                if not mods:
                    rec["rc"] = 2
                    return shell_rc(child, 2), b"", b"ModuleNotFoundError\n"
                return shell_rc(child, rc), step_out, step_out
            finally:
                fs.quiet = old

        return {"cmake": cmake, "pytest": pytest}

    return handlers


def life_validate(ctx, plan, step, undisturbed):
    spec = dict(plan["env"])
    if not undisturbed:
        for k in ("faults", "locale", "fates"):
            if k in step:
                spec[k] = step[k]
    import importlib

    V = importlib.import_module("litgen.validate_bindings_compilation.validate_bindings_compilation")
    o = make_options(plan["opts"])
    env = Env(ctx, spec, handlers=handlers_for(step))
    env.ctx.partial["vlog"] = []
    env.install()
    if step.get("cwd") and not undisturbed:
        os.chdir(step["cwd"])
    work = step["work"]
    if work == "ABS":
        work = os.path.join(env.fs.root, "abs work")
    out = dict(ok=True)
    # rm -r and mkdir inside the work directory are part of the run: nothing outside of the scratch directory can be reached
    try:
        r = V.validate_bindings_compilation(step["cpp"], o, step["test"], step["module"], work, step["on_success"] and not undisturbed, step["on_failure"], step["logs"], step["hack"])
        out["value"] = r
    except BaseException as e:
        out = dict(ok=False, exc=describe_exc(e), type=type(e).__name__)
    rep = env.report()
    rep["outcome"] = out
    rep["vlog"] = env.vlog
    return rep


def workdir(step) -> str | None:
    """relative to the scratch root"""
    w = step["work"]
    if w is None:
        return None
    if w == "ABS":
        return "abs work"
    return os.path.normpath(os.path.join(step.get("cwd") or "", w))


LEFT = ["code.cpp", "build/CMakeCache.txt", "_mymod.so", "stale.txt", "sub dir/stale.h", "CMakeLists.txt", "build/stale.o", ".stale"]


def lay_out(plan) -> None:
    os.makedirs("tmp", exist_ok=True)
    os.makedirs("elsewhere", exist_ok=True)
    os.makedirs("existing", exist_ok=True)
    for d in ("sub", "elsewhere/sub", "elsewhere/existing"):
        os.makedirs(d, exist_ok=True)
    put("decoy.txt", b"user file\n")
    put("build/user.txt", b"user build\n")
    put("code.cpp", b"user code\n")
    put("sub/user.txt", b"user\n")
    put("elsewhere/build/keep.txt", b"user\n")
    for d in plan.get("leftover", []):
        os.makedirs(d, exist_ok=True)
        left = {"code.cpp": b"// leftover code\nint left();\n", "build/CMakeCache.txt": os.path.abspath(d).encode() + b"\nstale cache\n", "_mymod.so": b"stale module", "stale.txt": b"stale", "sub dir/stale.h": b"stale", "CMakeLists.txt": b"stale",
                "build/stale.o": b"", ".stale": b"hidden"}
        for i, f in enumerate(LEFT):
            if plan.get("left", 15) >> i & 1:
                put(os.path.join(d, f), left[f])


def gen(rng, tier) -> dict:
    steps = [gen_step(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    lefts = sorted({workdir(s) for s in steps if s["work"] is not None})
    return dict(opts=[x for x in gen_options(rng, nmax=2)], env=dict(O.gen_env(rng)), steps=steps, leftover=[d for d in lefts if rng.random() < 0.6], left=rng.choice([15, 255, 1, 8, rng.randint(0, 255), rng.randint(0, 255)]))


def inside(p, d) -> bool:
    return d is not None and (p == d or p.startswith(d + os.sep))


def step_life(plan, step, res, n):
    before = tree(".")
    st, rep = core.life(life_validate, plan, step, False)
    res.lives += 1
    if st in ("hang", "died"):
        res.violate("hang", f"step {n}: the validation never ends, or died ({st})")
        return None
    crashed = st == "crash"
    if crashed:
        rep = dict(rep, outcome=None, vlog=[])
    after = tree(".")
    o = rep["outcome"]
    outcome = "killed" if crashed else f"returned {o['value']}" if o["ok"] else o["exc"]
    res.faults.update(rep["fired"])
    res.sim_time += rep["sim_time"]
    res.log.append((n, "validate", stable_name(outcome), tuple(sorted(rep["fired"].items())), tuple((c["step"], c["fate"], c["rc"]) for c in rep["vlog"]), len(rep["oplog"])))
    res.states.add(digest((rep["oplog"], stable_name(outcome), sorted(rep["fired"]), [(c["step"], c["rc"]) for c in rep["vlog"]])))
    if rep["fired"]:
        res.nontrivial = True
    res.probes["killed" if crashed else f"returned-{o['value']}" if o["ok"] else "raised"] += 1
    for c in rep["vlog"]:
        res.probes[f"{c['step']}:{c['fate']}"] += 1
    return before, after, rep, crashed, outcome


def directed(tier):
    """every step of the validation x every fate of its child x every combination of the removal and reuse settings"""
    out = []
    for k in range(3):
        for fate in [dict(kind="ok")] + FATES:
            if fate["kind"] == "ok" and k:
                continue
            for on_s in (False, True):
                for on_f in (False, True):
                    for work, hack in (("work", False), ("work", True), (None, False)):
                        if fate["kind"] == "ok":
                            fates = []
                        else:
                            fates = [dict(kind="ok")] * k + [fate]
                        out.append(dict(opts=[], env=dict(seed=k, pid=31337), leftover=["work"] if work else [],
                                        steps=[dict(cpp=CPP[1], test=TESTS[2], module="mymod", work=work, on_success=on_s, on_failure=on_f, logs=False, hack=hack, fates=fates, faults=[], out="ok\n")]))
    return out
