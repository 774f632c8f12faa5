"""The simulated clock"""
from __future__ import annotations
import datetime
import time

_real = {k: getattr(time, k) for k in ("localtime", "gmtime", "strftime", "ctime", "asctime")}


class SimClock:
    """Simulated clock: advances by a small amount per reading, by the requested amount when sleeping, and may jump"""

    def __init__(self, start=1_700_000_000.0, jumps=()):
        self.t = start
        self.start = start
        self.reads = 0
        self.jumps = {j[0]: j[1] for j in jumps}
        self.jumped = 0
        self.advanced = 0.0
        self.tick = 0.0007
        self.grain = None  # resolution of the clock

    def now(self) -> float:
        self.reads += 1
        self.t += self.tick
        self.advanced += self.tick
        d = self.jumps.get(self.reads)
        if d is not None:
            self.t += d
            self.jumped += 1
        return self.t if self.grain is None else self.t // self.grain * self.grain

    def sleep(self, s) -> None:
        self.t += max(0.0, s)
        self.advanced += max(0.0, s)

    def install(self) -> None:
        clock = self
        time.time = clock.now
        time.monotonic = clock.now
        time.perf_counter = clock.now
        time.process_time = clock.now
        time.thread_time = clock.now
        time.time_ns = lambda: int(clock.now() * 1e9)
        time.monotonic_ns = time.time_ns
        time.perf_counter_ns = time.time_ns
        time.process_time_ns = time.time_ns
        time.sleep = clock.sleep
        time.localtime = lambda s=None: _real["localtime"](clock.now() if s is None else s)
        time.gmtime = lambda s=None: _real["gmtime"](clock.now() if s is None else s)
        time.ctime = lambda s=None: _real["ctime"](clock.now() if s is None else s)
        time.asctime = lambda t=None: _real["asctime"](time.localtime() if t is None else t)
        time.strftime = lambda f, t=None: _real["strftime"](f, time.localtime() if t is None else t)


def install_datetime_seam() -> None:
    """datetime reads the clock in C: its class is replaced before the code under test is imported"""

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    class DateTime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

    datetime.datetime = DateTime
    datetime.date = Date
