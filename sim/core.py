"""Core of the simulator: seeds, import of the code under test, process incarnations ("lives").

One integer decides everything: every choice is drawn from random.Random(H(VERIF_SEED, property, run index)),
and what a run does is a pure function of the plan (JSON) drawn from it and of the code in the repository.
"""
from __future__ import annotations
import gc
import hashlib
import os
import pickle
import random
import re
import resource
import select
import shutil
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
SRC = os.path.join(REPO, "src")

# the real functions, before any seam is installed
real_open = open
real_time = time.time
real_monotonic = time.monotonic
REAL_OS = {
    k: getattr(os, k)
    for k in (
        "open close read write fsync fdatasync rename replace unlink remove mkdir rmdir truncate ftruncate chmod "
        "fchmod chown fchown lchown link symlink utime getpid stat lstat listdir scandir fork _exit system access"
    ).split()
    if hasattr(os, k)
}


class HarnessError(Exception):
    """Something is wrong with the check itself: never a VIOLATION, never exit 0"""


def H(*parts) -> int:
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def digest(obj) -> str:
    return hashlib.sha256(repr(obj).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def stable_name(s: str) -> str:
    """Names that embed a process or thread id are normalised in logs, so that logs are comparable"""
    return re.sub(r"\d{4,}", "#", s)


_loaded = False


def load_repo() -> None:
    """Imports the code under test from REPO/src (current working tree), never from stale byte code"""
    global _loaded
    if _loaded:
        return
    _loaded = True
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-verif-pycache" if "VERIF_PYCACHE" not in os.environ else os.environ["VERIF_PYCACHE"]
    sys.path.insert(0, SRC)
    from sim import clock, sched

    sched.install_lock_seam()
    clock.install_datetime_seam()
    import litgen  # noqa
    import litgen.litgen_generator  # noqa
    import srcmlcpp  # noqa
    import codemanip.amalgamated_header  # noqa
    import codemanip.code_utils  # noqa
    import codemanip.parse_progress_bar  # noqa
    import srcmlcpp.internal.code_to_srcml  # noqa
    import srcmlcpp.internal.code_cache  # noqa
    import srcmlcpp_tools.pimpl_my_class.pimpl_my_class  # noqa
    import litgen.validate_bindings_compilation.validate_bindings_compilation  # noqa
    import litgen.internal.boxed_python_type  # noqa
    import importlib
    import pkgutil

    for pkg in ("litgen.internal", "srcmlcpp.cpp_types", "srcmlcpp.internal"):
        mod = importlib.import_module(pkg)
        for m in pkgutil.walk_packages(mod.__path__, pkg + "."):
            if ".tests" in m.name or "test" in m.name.split(".")[-1]:
                continue
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
    for m in ("black", "logging", "encodings.ascii", "encodings.latin_1", "encodings.cp1252", "encodings.shift_jis",
              "encodings.utf_16", "encodings.cp437", "encodings.utf_8_sig", "urllib.request", "litgen.cli.litgen_cli", "srcmlcpp.cli.srcmlcpp_cli"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    if not os.path.realpath(litgen.__file__).startswith(SRC + os.sep):
        raise HarnessError(f"litgen was imported from {litgen.__file__}, not from {SRC}")
    warm_regex_cache()
    gc.collect()
    gc.freeze()


def _collect_regexes(ctx):
    """(in a throw-away process) which regular expressions does the code under test compile?"""
    import io
    import logging
    from sim.headers import header, OPTION_OPS, make_options, KINDS
    import litgen

    logging.disable(50)
    sys.stdout = sys.stderr = io.StringIO()
    for i, k in enumerate(KINDS * 2):
        rng = random.Random(i)
        names = ["boxed_all", "virtual_all", "protected_all"] + rng.sample(sorted(OPTION_OPS), 6)
        try:
            litgen.generate_code(make_options(names), header(rng, f"w{i}_", 3, [k], warn=0.3))
        except Exception:
            pass
    re_mod = sys.modules["re"]
    keys = list(dict.fromkeys(list(re_mod._cache) + list(getattr(re_mod, "_cache2", {}))))
    return [(p, f) for t, p, f in keys if t is str and isinstance(p, str) and isinstance(f, int)]


def warm_regex_cache() -> None:
    """Only makes lives faster: fills the cache of the standard re module, without running the code under test here"""
    try:
        st, keys = life(_collect_regexes, cpu=60)
    except HarnessError:
        return
    if st == "ok":
        re._MAXCACHE = 4096
        for p, f in keys:
            try:
                re.compile(p, f)
            except re.error:
                pass


class Crash(BaseException):
    """Never raised: a crash is os._exit"""


class Ctx:
    """What a life knows about itself"""

    def __init__(self, wfd: int) -> None:
        self.wfd = wfd
        self.partial: dict = {}
        self.on_crash = None

    def send(self, obj) -> None:
        data = pickle.dumps(obj)
        view = memoryview(data)
        while view:
            n = REAL_OS["write"](self.wfd, view[: 1 << 16])
            view = view[n:]

    def crash(self) -> None:
        """kill -9 at this very instruction: user space buffers are lost, nothing is unwound"""
        if self.on_crash is not None:
            self.on_crash()
        self.send(("crash", self.partial))
        REAL_OS["_exit"](137)


WALL = float(os.environ.get("VERIF_LIFE_WALL", "240"))


def life(fn, *args, cpu: int = 40, wall: float | None = None):
    """Runs fn(ctx, *args) in a forked process incarnation.
    Returns (status, value): ("ok", result) ("crash", partial) ("hang", None); raises HarnessError for the rest."""
    wall = wall or WALL
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = REAL_OS["fork"]()
    if pid == 0:
        try:
            REAL_OS["close"](r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            gc.disable()
            sys.unraisablehook = lambda *_: None
            ctx = Ctx(w)
            try:
                res = ("ok", fn(ctx, *args))
                ctx.send(res)
            except BaseException:
                sys.settrace(None)
                ctx.send(("harness", traceback.format_exc()))
        finally:
            REAL_OS["_exit"](0)
    REAL_OS["close"](w)
    chunks = []
    deadline = real_monotonic() + wall
    timed_out = False
    while True:
        left = deadline - real_monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        data = REAL_OS["read"](r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    REAL_OS["close"](r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise HarnessError(f"a simulated process did not end within {wall} s")
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU or sig == signal.SIGKILL:
            return "hang", None
        return "died", sig
    if not chunks:
        raise HarnessError(f"a simulated process ended without result, status {status}")
    kind, value = pickle.loads(b"".join(chunks))
    if kind == "harness":
        raise HarnessError("exception in the harness:\n" + value)
    return kind, value


class Result:
    """Outcome of one simulated run"""

    def __init__(self) -> None:
        self.violations: list[dict] = []
        self.faults: Counter = Counter()
        self.probes: Counter = Counter()
        self.states: set = set()
        self.log: list = []
        self.steps = 0
        self.lives = 0
        self.interleavings = 0
        self.sim_time = 0.0
        self.nontrivial = False

    def violate(self, cls: str, msg: str, **kw) -> None:
        self.violations.append(dict(cls=cls, msg=msg, **kw))

    def digest(self) -> str:
        return digest((self.log, [(v["cls"], v["msg"]) for v in self.violations], sorted(self.faults.items())))


def scratch_base() -> str:
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return VERIF


class Scratch:
    """A scratch directory which is the current directory of the run; removed afterwards"""

    def __init__(self) -> None:
        self.root = os.path.realpath(os.path.join(scratch_base(), f"verif-sim-{os.environ.get('VERIF_RUN_TAG', '')}{os.getpid()}"))
        self.old = os.getcwd()

    def __enter__(self) -> str:
        if os.path.lexists(self.root):
            shutil.rmtree(self.root)
        os.mkdir(self.root)
        os.chdir(self.root)
        return self.root

    def __exit__(self, *a) -> None:
        os.chdir(self.old)
        shutil.rmtree(self.root, ignore_errors=True)
        if os.path.isdir(self.root):
            for d, _, _ in os.walk(self.root):
                os.chmod(d, 0o700)
            shutil.rmtree(self.root, ignore_errors=True)


def tree(root: str = ".") -> dict:
    """Snapshot of a directory tree: relative path -> ("f", bytes, mode) | ("d",) | ("l", target)"""
    out: dict = {}
    for d, dirs, files in os.walk(root):
        for n in sorted(dirs):
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("l", os.readlink(p))
            else:
                out[rel] = ("d",)
        for n in sorted(files):
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("l", os.readlink(p))
            else:
                with real_open(p, "rb") as f:
                    out[rel] = ("f", f.read(), os.stat(p).st_mode & 0o7777)
    return out


def put(path: str, data: bytes, mode: int | None = None, mtime: int = 1_000_000_000) -> None:
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with real_open(path, "wb") as f:
        f.write(data)
    if mode is not None:
        os.chmod(path, mode)
    os.utime(path, (mtime, mtime))


def get(path: str) -> bytes | None:
    try:
        with real_open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def describe_exc(e: BaseException) -> str:
    return f"{type(e).__name__}: {str(e)[:300]}"


def new_rng(*parts) -> random.Random:
    return random.Random(H(*parts))
