"""Other interpreters: one fresh Python process per string-hash seed and level of optimization, which forks simulated process incarnations on demand.
String hashing cannot be changed in a running interpreter; everything else is decided inside the incarnation."""
from __future__ import annotations
import importlib
import os
import pickle
import subprocess
import sys
import traceback

from sim import core
from sim.core import HarnessError, VERIF

_SERVERS: dict = {}
_OWNER = None


def hash_seeds(n: int = 3) -> list:
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return [core.H("hash", seed, i) % 4294967295 + 1 for i in range(n)]


class Server:
    def __init__(self, hashseed, optimize: int) -> None:
        env = dict(os.environ)
        if hashseed is None:
            hashseed = int(os.environ.get("PYTHONHASHSEED", "0"))
        env.pop("PYTHONOPTIMIZE", None)
        if optimize:
            env["PYTHONOPTIMIZE"] = str(optimize)
        env.update(PYTHONHASHSEED=str(hashseed), VERIF_HASHSEED=str(hashseed), VERIF_REEXEC="1", VERIF_REPO=core.REPO)
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "check.py"), "--server"], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def call(self, module: str, name: str, args) -> tuple:
        data = pickle.dumps((os.getcwd(), module, name, args))
        try:
            self.p.stdin.write(len(data).to_bytes(8, "big") + data)
            self.p.stdin.flush()
            n = int.from_bytes(self.p.stdout.read(8), "big")
            if n == 0:
                raise HarnessError("another interpreter ended")
            out = self.p.stdout.read(n)
        except OSError as e:
            raise HarnessError(f"another interpreter does not answer: {e}")
        kind, value = pickle.loads(out)
        if kind == "harness":
            raise HarnessError(value)
        return kind, value


def life_in(hashseed, fn, *args, optimize: int = 0) -> tuple:
    """as core.life, in an interpreter with this hash seed (None: this one's) which optimizes (python -O, -OO) or not"""
    global _OWNER
    if hashseed is None and not optimize:
        return core.life(fn, *args)
    if _OWNER != os.getpid():
        _SERVERS.clear()  # (those of the process this one was forked from are not ours)
        _OWNER = os.getpid()
    s = _SERVERS.get((hashseed, optimize))
    if s is None:
        s = _SERVERS[hashseed, optimize] = Server(hashseed, optimize)
    return s.call(fn.__module__, fn.__name__, args)


def serve() -> int:
    inp = os.fdopen(os.dup(0), "rb")
    out = os.fdopen(os.dup(1), "wb")
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(2, 1)
    core.load_repo()
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return 0
        cwd, module, name, args = pickle.loads(inp.read(int.from_bytes(h, "big")))
        try:
            os.chdir(cwd)
            r = core.life(getattr(importlib.import_module(module), name), *args)
        except HarnessError as e:
            r = ("harness", str(e))
        except Exception:
            r = ("harness", traceback.format_exc())
        os.chdir("/")
        data = pickle.dumps(r)
        out.write(len(data).to_bytes(8, "big") + data)
        out.flush()
