"""Deterministic thread scheduler: real threads, of which exactly one runs at any time. Control changes hands only at
scheduling points (traced source lines of the code under test and of xml.etree.ElementTree, lock operations, file
operations, child process steps), and the seeded generator decides when and to whom."""
from __future__ import annotations
import random
import sys
import threading
import traceback

_real_lock = threading.Lock
_real_rlock = threading.RLock
_ACTIVE = None  # the scheduler of this process, if any


class Deadlock(BaseException):
    pass


class SimLock:
    """Lock of the code under test: cooperative under the scheduler, plain otherwise"""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        s = _ACTIVE
        me = s.me() if s is not None else "single"
        if s is not None:
            s.yield_point("lock")
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking or timeout is not None and timeout >= 0:
                return False
            if s is None or not s.wait_for(self):
                raise Deadlock("a lock is never released")

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        s = _ACTIVE
        if s is not None:
            s.yield_point("unlock")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_lock_seam() -> None:
    from sim.core import SRC

    def from_repo() -> bool:
        f = sys._getframe(2)
        for _ in range(2):
            if f is None:
                return False
            if f.f_code.co_filename.startswith(SRC):
                return True
            f = f.f_back
        return False

    def lock():
        return SimLock() if from_repo() else _real_lock()

    def rlock():
        return SimLock(True) if from_repo() else _real_rlock()

    threading.Lock = lock
    threading.RLock = rlock


class Sched:
    def __init__(self, seed: int, mean: int, files, forced: list | None = None, opcodes: bool = False):
        self.rng = random.Random(seed)
        self.mean = mean
        self.opcodes = opcodes  # switch at every byte code instruction rather than at every line
        self.files = files  # prefixes of traced files
        # recorded schedule: [step number, thread, reason] (reason 0: preempted, 1: first or next to run, 2: waits for a lock);
        # None: draw from the generator
        self.forced = None if forced is None else {(e[0], e[2]): e[1] for e in forced}
        self.due = sorted({e[0] for e in forced if e[2] == 0}) if forced is not None else []
        self.fpos = 0
        self.schedule: list = []  # what was done, in that form
        self.left = 0
        self.switches = 0
        self.trace_log: list = []
        self.steps = 0
        self.local = threading.local()
        self.deadlock = False
        self.enabled = True
        self.rearm()

    def rearm(self) -> None:
        """when is the next switch due?"""
        if self.forced is None:
            # mostly gaps of the chosen scale; now and then a long one, so that small scales come in bursts
            self.left = self.rng.randint(1, 2 * self.mean) if self.rng.random() < 0.97 else self.rng.randint(1, 4000)
        else:
            while self.fpos < len(self.due) and self.due[self.fpos] <= self.steps:
                self.fpos += 1
            self.left = self.due[self.fpos] - self.steps if self.fpos < len(self.due) else 1 << 60

    def pick(self, cand, reason=0):
        if self.forced is None:
            t = self.rng.choice(cand)
        else:
            t = self.forced.get((self.steps, reason), cand[0])
            if t not in cand:
                t = cand[0]
        if len(self.schedule) < 60000:
            self.schedule.append([self.steps, t, reason])
        return t

    def me(self):
        return getattr(self.local, "i", None)

    # -- called by running thread
    def yield_point(self, what="") -> None:
        if not self.enabled or self.me() is None:
            return
        self.tick(what)

    def tick(self, what) -> None:
        self.steps += 1
        self.left -= 1
        if self.left <= 0:
            self.switch(what)

    def switch(self, what="", blocked=False) -> None:
        i = self.me()
        cand = [k for k in range(self.n) if not self.done[k] and not (self.blocked[k] and self.blocked[k].owner is not None)]
        if blocked:
            cand = [k for k in cand if k != i]
            if not cand:
                return
        t = self.pick(cand, 2 if blocked else 0)
        self.rearm()
        if t == i:
            if self.schedule and self.schedule[-1] == [self.steps, i, 0]:
                self.schedule.pop()
            return
        self.switches += 1
        if len(self.trace_log) < 2000:
            self.trace_log.append((i, t, what))
        self.sems[t].release()
        self.sems[i].acquire()

    def wait_for(self, lock) -> bool:
        i = self.me()
        if i is None:
            return False
        self.blocked[i] = lock
        cand = [k for k in range(self.n) if k != i and not self.done[k] and not (self.blocked[k] and self.blocked[k].owner is not None)]
        if not cand:
            self.deadlock = True
            self.blocked[i] = None
            return False
        self.switch("blocked", blocked=True)
        self.blocked[i] = None
        return True

    def run(self, jobs):
        """jobs: functions without argument. Returns [("ok", value) | ("exc", exception, traceback text)]"""
        global _ACTIVE
        self.n = len(jobs)
        self.sems = [threading.Semaphore(0) for _ in jobs]
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.results = [None] * self.n
        main = threading.Semaphore(0)
        _ACTIVE = self
        prefixes = self.files

        def worker(i):
            self.local.i = i
            self.sems[i].acquire()

            unit = "opcode" if self.opcodes else "line"

            def loc(frame, event, arg):
                if event == unit and self.enabled:
                    self.steps += 1
                    self.left -= 1
                    if self.left <= 0:
                        self.switch((frame.f_code.co_name, frame.f_lineno))
                return loc

            def tr(frame, event, arg):
                c = frame.f_code
                if c.co_filename.startswith(prefixes) and c.co_name != "<module>":
                    if self.opcodes:
                        frame.f_trace_opcodes = True
                    return loc
                return None

            sys.settrace(tr)
            try:
                r = ("ok", jobs[i]())
            except BaseException as e:
                sys.settrace(None)
                r = ("exc", e, traceback.format_exc())
            sys.settrace(None)
            self.results[i] = r
            self.done[i] = True
            cand = [k for k in range(self.n) if not self.done[k]]
            ready = [k for k in cand if not (self.blocked[k] and self.blocked[k].owner is not None)]
            if not cand:
                main.release()
            else:
                # (if nobody is ready, wake one up: it will find out that its lock is never released)
                t = self.pick(ready or cand, 1)
                self.rearm()
                self.sems[t].release()

        threads = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        self.sems[self.pick(list(range(self.n)), 1)].release()
        main.acquire()
        for t in threads:
            t.join()
        _ACTIVE = None
        return self.results


def elementtree_file() -> str:
    import xml.etree.ElementTree as ET

    return ET.__file__
