"""Deterministic interleaving of several processes: each is a real forked process which stops at every file operation and
child process step until the controller lets it go on. The controller picks who goes next from a seeded generator, or
from a recorded schedule."""
from __future__ import annotations
import gc
import os
import pickle
import random
import resource
import select
import signal
import sys
import traceback

from sim import core
from sim.core import Ctx, HarnessError, REAL_OS


class Remote:
    """The scheduler as seen from inside one of the processes"""

    def __init__(self, wfd: int, rfd: int) -> None:
        self.wfd, self.rfd = wfd, rfd
        self.closed = False

    def yield_point(self, what="") -> None:
        if self.closed:
            return
        REAL_OS["write"](self.wfd, b"Y")
        if REAL_OS["read"](self.rfd, 1) != b"G":
            REAL_OS["_exit"](3)

    def wait_for(self, lock) -> bool:
        return False

    def me(self):
        return 0


class RCtx(Ctx):
    def send(self, obj) -> None:
        data = pickle.dumps(obj)
        REAL_OS["write"](self.wfd, b"R" + len(data).to_bytes(8, "big"))
        super().send(obj)


def run_processes(fns, seed: int, schedule=None, mean: int = 3, cpu: int = 40):
    """fns: functions (ctx, remote) -> value. Returns (results, schedule used, number of switches);
    results are ("ok", value), ("crash", partial) or ("died", status) for a process that ends otherwise"""
    rng = random.Random(seed)
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    fds: list = []
    for fn in fns:
        a, b = os.pipe()  # child -> controller
        c, d = os.pipe()  # controller -> child
        pid = REAL_OS["fork"]()
        if pid == 0:
            try:
                for fd in fds + [a, d]:
                    REAL_OS["close"](fd)
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                gc.disable()
                sys.unraisablehook = lambda *_: None
                ctx = RCtx(b)
                remote = Remote(b, c)
                try:
                    remote.yield_point("start")
                    ctx.send(("ok", fn(ctx, remote)))
                except BaseException:
                    ctx.send(("harness", traceback.format_exc()))
            finally:
                REAL_OS["_exit"](0)
        REAL_OS["close"](b)
        REAL_OS["close"](c)
        fds += [a, d]
        kids.append(dict(pid=pid, r=a, w=d, alive=True, result=None))

    def exact(fd, n):
        out = b""
        while len(out) < n:
            ready, _, _ = select.select([fd], [], [], core.WALL)
            if not ready:
                raise HarnessError("an interleaved process does not answer")
            x = REAL_OS["read"](fd, n - len(out))
            if not x:
                return None
            out += x
        return out

    def collect(k) -> None:
        """runs until the process stops at its next yield point, or ends"""
        t = exact(k["r"], 1)
        if t == b"Y":
            return
        if t == b"R":
            n = int.from_bytes(exact(k["r"], 8), "big")
            k["result"] = pickle.loads(exact(k["r"], n))
        k["alive"] = False
        _, status = os.waitpid(k["pid"], 0)
        k["reaped"] = True
        if k["result"] is None:
            k["result"] = ("died", status)

    used: list = []
    switches = 0
    try:
        for k in kids:
            collect(k)
        cur = None
        left = 0
        while True:
            alive = [i for i, k in enumerate(kids) if k["alive"]]
            if not alive:
                break
            if schedule is not None:
                n = len(used)
                want = schedule[n] if n < len(schedule) else (cur if cur in alive else alive[0])
                nxt = want if want in alive else (cur if cur in alive else alive[0])
            elif cur in alive and left > 0:
                nxt = cur
                left -= 1
            else:
                nxt = rng.choice(alive)
                left = rng.randint(0, 2 * mean)
            if nxt != cur:
                switches += 1
            cur = nxt
            used.append(nxt)
            REAL_OS["write"](kids[nxt]["w"], b"G")
            collect(kids[nxt])
    finally:
        for k in kids:
            if not k.get("reaped"):
                try:
                    os.kill(k["pid"], signal.SIGKILL)
                    os.waitpid(k["pid"], 0)
                except OSError:
                    pass
        for fd in fds:
            try:
                REAL_OS["close"](fd)
            except OSError:
                pass
    for k in kids:
        if k["result"][0] == "harness":
            raise HarnessError("exception in the harness:\n" + k["result"][1])
    return [k["result"] for k in kids], used, switches
