"""The environment of one simulated process incarnation: disk, children, clock, random state, output capture."""
from __future__ import annotations
import io
import logging
import os
import random
import sys

from sim.clock import SimClock
from sim.fs import SimFS
from sim.proc import SimProc, black_handler, srcml_handler


class ListHandler(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        try:
            self.records.append((record.levelname, record.getMessage()))
        except Exception as e:
            self.records.append((record.levelname, f"<unformattable: {e}>"))


class Output(io.StringIO):
    """standard output: in the locale's encoding, like the real one"""

    def __init__(self, encoding="utf-8", errors="strict"):
        super().__init__()
        self.enc, self.err = encoding, errors

    encoding = property(lambda self: self.enc)
    errors = property(lambda self: self.err)

    def write(self, s):
        if self.enc != "utf-8":
            s = s.encode(self.enc, self.err).decode(self.enc)
        return super().write(s)


class Env:
    def __init__(self, ctx, spec: dict, root: str = ".", sched=None, handlers=None):
        """spec keys: faults, locale, bufsize, seed, fates, default_fate, pid, environ, clock_jumps"""
        self.ctx = ctx
        self.fs = SimFS(ctx, root, spec.get("faults", ()), spec.get("locale", "utf-8"), spec.get("bufsize", 8192), spec.get("seed", 0))
        h = {"black": black_handler(self.fs), "srcml": srcml_handler(self.fs, sched)}
        h.update(handlers(self) if handlers else {})
        self.proc = SimProc(self.fs, h, spec.get("fates", ()), sched, spec.get("locale", "utf-8"))
        if "default_fate" in spec:
            self.proc.default_fate = spec["default_fate"]
        self.clock = SimClock(spec.get("clock_start", 1_700_000_000.0), spec.get("clock_jumps", ()))
        self.clock.tick = spec.get("clock_tick", self.clock.tick)
        self.out, self.err = Output(spec.get("locale", "utf-8")), Output(spec.get("locale", "utf-8"), "backslashreplace")
        self.logs = ListHandler()
        self.spec = spec

    def install(self) -> "Env":
        spec = self.spec
        pid = spec.get("pid", 31337)
        os.getpid = lambda: pid
        self.fs.install()
        import tempfile

        tempfile._name_sequence._rng_pid = pid
        self.proc.install()
        self.clock.install()
        random.seed(spec.get("random", spec.get("seed", 0)))
        entropy = random.Random(spec.get("random", spec.get("seed", 0)))
        os.urandom = lambda n: entropy.randbytes(n)
        for k, v in spec.get("environ", {}).items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        if "TMPDIR" not in spec.get("environ", {}):
            os.environ.pop("TMPDIR", None)
        sys.stdout, sys.stderr = self.out, self.err
        root = logging.getLogger()
        for hd in list(root.handlers):
            root.removeHandler(hd)
        root.addHandler(self.logs)
        root.setLevel(logging.DEBUG)
        self.ctx.on_crash = lambda: self.ctx.partial.update(self.report())
        return self

    def report(self) -> dict:
        d = self.fs.summary()
        d["calls"] = self.proc.calls
        fired = dict(d["fired"])
        for k, v in self.proc.fired.items():
            fired[k] = fired.get(k, 0) + v
        if self.clock.jumped:
            fired["clock-jump"] = self.clock.jumped
        d["fired"] = fired
        d["sim_time"] = self.clock.advanced
        d["logs"] = self.logs.records[:50]
        d["stderr"] = self.err.getvalue()[-4000:]
        d["stdout"] = self.out.getvalue()[-4000:]
        return d
