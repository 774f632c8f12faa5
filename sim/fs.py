"""Simulated file system seam: the code under test works on real files of a scratch directory, but every file
operation goes through this layer, which numbers it, decides whether it fails, how, or whether the process dies there.

Fault kinds (plan entries {"at": n, "kind": k, ...}, n counting the intercepted operations of one life, or
{"op": name, "k": n, ...}, n counting the operations of that name):
  error         the operation fails with errno (e)
  short         a read or write transfers only part of the data (legal: callers have to retry)
  partial       a write transfers part of the data, then fails
  crash_before / crash_mid / crash_after    kill -9 there
  power_before / power_mid / power_after    power loss there: unsynced data and unsynced metadata may be lost
  interrupt     KeyboardInterrupt instead of the operation
  full          from here on every write, creation and sync fails with ENOSPC (full disk)
  dead          from here on every operation on the disk fails with EIO
Destructive operations outside the scratch root are never executed: they are recorded as escapes and denied.
"""
from __future__ import annotations
import builtins
import codecs
import errno
import io
import os
import random
import shutil
import sys
import tempfile
from collections import Counter

from sim.core import REAL_OS, real_open, stable_name

ERRNOS = {n: getattr(errno, n) for n in ("EIO", "ENOSPC", "EACCES", "EMFILE", "EDQUOT", "EROFS", "ENOENT", "EINTR", "EBUSY", "ENOMEM")}
OP_ERRNOS = {
    "open_r": ["EIO", "EACCES", "EMFILE", "ENOMEM"],
    "open_w": ["EIO", "EACCES", "EMFILE", "ENOSPC", "EROFS", "EDQUOT"],
    "read": ["EIO", "ENOMEM"],
    "write": ["EIO", "ENOSPC", "EDQUOT"],
    "fsync": ["EIO", "ENOSPC", "EDQUOT"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "rename": ["EIO", "EACCES", "ENOSPC", "EBUSY", "EROFS"],
    "unlink": ["EIO", "EACCES", "EBUSY", "EROFS"],
    "mkdir": ["EIO", "EACCES", "ENOSPC", "EDQUOT"],
    "rmdir": ["EIO", "EACCES", "EBUSY"],
    "chmod": ["EIO", "EROFS"],
    "truncate": ["EIO", "EROFS"],
    "link": ["EIO", "EACCES", "ENOSPC"],
    "utime": ["EIO", "EROFS"],
}
DESTRUCTIVE = {"open_w", "write", "rename", "unlink", "mkdir", "rmdir", "chmod", "truncate", "link", "utime"}


class SimFileIO(io.FileIO):
    """A raw file whose reads and writes are fault points"""

    def __init__(self, fs, file, mode, path, **kw):
        self._fs = fs
        self._path = path
        self._w = any(c in mode for c in "wax+")
        super().__init__(file, mode, **kw)
        self._ino = os.fstat(self.fileno()).st_ino
        fs.fdpath[self.fileno()] = path

    def readinto(self, b):
        act = self._fs.point("read", self._path)
        if act == "short" and len(b) > 1:
            return super().readinto(memoryview(b)[: max(1, len(b) // 3)])
        return super().readinto(b)

    def readall(self):
        out = []
        while True:
            act = self._fs.point("read", self._path)
            data = super().read(7 if act == "short" else 1 << 16)
            if not data:
                return b"".join(out)
            out.append(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        act = self._fs.point("read", self._path)
        if act == "short" and size > 1:
            size = max(1, size // 3)
        return super().read(size)

    def write(self, b):
        b = bytes(b)
        return self._fs.do_write(self._path, self._ino, b, lambda data: super(SimFileIO, self).write(data))

    def truncate(self, size=None):
        self._fs.point("truncate", self._path)
        self._fs.dirty[self._ino] = self._path
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        fd = self.fileno()
        err = None
        if self._w and not self._fs.quiet:
            try:
                self._fs.point("close", self._path)
            except OSError as e:  # the descriptor is released even if close() reports an error
                err = e
        self._fs.fdpath.pop(fd, None)
        super().close()
        if err is not None:
            raise err


class SimFS:
    def __init__(self, ctx, root: str, faults=(), locale_encoding: str = "utf-8", bufsize: int = 8192, rng_seed: int = 0, only: str | None = None):
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self.faults = {f["at"]: f for f in faults if "at" in f}
        self.op_faults = {(f["op"], f["k"]): f for f in faults if "op" in f}  # k-th operation of that kind
        self.op_count: Counter = Counter()
        self.locale_encoding = locale_encoding
        self.bufsize = bufsize
        self.rng = random.Random(rng_seed)
        self.n = 0
        self.oplog: list = []
        self.fired: Counter = Counter()
        self.escapes: list = []
        self.fdpath: dict = {}
        self.dirty: dict = {}
        self.meta: list = []
        self.full = False
        self.dead = False
        self.quiet = False
        self.implicit_locale: list = []
        self.hook = None  # called at every fault point (thread scheduler)
        self.read_paths: set = set()
        self.written_paths: set = set()

    # ---------------------------------------------------------------- helpers
    def norm(self, path) -> str:
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(os.path.abspath(p)))

    def inside(self, p: str) -> bool:
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, p: str) -> str:
        return stable_name(os.path.relpath(p, self.root)) if self.inside(p) else stable_name(p)

    def summary(self) -> dict:
        return dict(n=self.n, oplog=self.oplog, fired=dict(self.fired), escapes=self.escapes, implicit_locale=self.implicit_locale)

    def add_fault(self, f: dict) -> None:
        """the k-th operation of that kind from now on fails"""
        self.op_faults[(f["op"], self.op_count[f["op"]] + f["k"])] = f

    def clear_faults(self) -> None:
        self.op_faults.clear()

    # ---------------------------------------------------------------- fault points
    def point(self, op: str, p: str):
        if self.quiet or not self.inside(p):
            return None
        if self.hook is not None:
            self.hook(op, p)
        n = self.n
        self.n += 1
        if len(self.oplog) < 4000:
            self.oplog.append((op, self.rel(p)))
        if self.dead:
            self.fired["dead-disk:" + op] += 1
            raise OSError(errno.EIO, os.strerror(errno.EIO), p)
        if self.full and op in ("write", "open_w", "mkdir", "fsync", "link"):
            if not (op == "open_w" and os.path.exists(p)):
                self.fired["full-disk:" + op] += 1
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), p)
        f = self.faults.get(n) or self.op_faults.get((op, self.op_count[op]))
        self.op_count[op] += 1
        if f is None:
            return None
        return self.inject(f, op, p)

    def inject(self, f: dict, op: str, p: str):
        kind = f["kind"]
        if kind in ("short", "partial") and op not in ("read", "write"):
            kind = "error"
        if kind == "partial" and op == "read":
            kind = "error"
        if kind.endswith("_mid") and op != "write":
            kind = kind.replace("_mid", "_before")
        if kind == "full":
            self.full = True
            self.fired["disk-becomes-full"] += 1
            if op in ("write", "open_w", "mkdir", "fsync", "link"):
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), p)
            return None
        if kind == "dead":
            self.dead = True
            self.fired["disk-dies:" + op] += 1
            raise OSError(errno.EIO, os.strerror(errno.EIO), p)
        self.fired[f"{kind}:{op}"] += 1
        if kind == "error":
            names = OP_ERRNOS.get(op, ["EIO"])
            e = ERRNOS[names[f.get("e", 0) % len(names)]]
            raise OSError(e, os.strerror(e), p)
        if kind == "interrupt":
            raise KeyboardInterrupt()
        if kind == "crash_before":
            self.ctx.crash()
        if kind == "power_before":
            self.power_loss(f)
        return kind  # short, partial, *_mid, *_after: the caller completes

    def after(self, act) -> None:
        if act == "crash_after":
            self.ctx.crash()
        elif act == "power_after":
            self.power_loss(None)

    def do_write(self, path, ino, b: bytes, raw_write):
        act = self.point("write", path)
        if self.inside(path):
            self.dirty[ino] = path
        if act in ("short", "partial", "crash_mid", "power_mid") and len(b) >= 1:
            k = self.rng.randint(0 if act != "short" else 1, max(len(b) - 1, 1))
            if act == "short":
                k = min(k, len(b))
                return raw_write(b[:k])
            if k:
                raw_write(b[:k])
            if act == "partial":
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            if act == "crash_mid":
                self.ctx.crash()
            self.power_loss(None)
        r = raw_write(b)
        self.after(act)
        return r

    def power_loss(self, _f) -> None:
        """Power loss: the metadata operations after a random durable point are undone, and every file with
        unsynced data keeps only a random prefix of it"""
        self.quiet = True
        keep = self.rng.randint(0, len(self.meta))
        for m in reversed(self.meta[keep:]):
            try:
                if m[0] == "rename":
                    REAL_OS["rename"](m[2], m[1])
                    if m[3] is not None:
                        with real_open(m[2], "wb") as f:
                            f.write(m[3])
                        REAL_OS["chmod"](m[2], m[4])
                elif m[0] == "unlink" and m[2] is not None:
                    with real_open(m[1], "wb") as f:
                        f.write(m[2])
                elif m[0] == "create":
                    pass
            except OSError:
                pass
        inos = dict(self.dirty)
        for d, _, files in os.walk(self.root):
            for n in files:
                p = os.path.join(d, n)
                try:
                    st = os.lstat(p)
                except OSError:
                    continue
                if st.st_ino in inos and st.st_size > 0:
                    REAL_OS["truncate"](p, self.rng.choice([0, 0, self.rng.randint(0, st.st_size)]))
        self.ctx.crash()

    def deny(self, op: str, p: str):
        self.escapes.append((op, stable_name(p)))
        raise PermissionError(errno.EACCES, "outside of the simulated disk", p)

    def check_destructive(self, op: str, p: str) -> None:
        if self.quiet:
            return
        if not self.inside(p) and not p.startswith("/dev/"):
            self.deny(op, p)

    # ---------------------------------------------------------------- installation
    def install(self) -> None:
        fs = self

        def text_encoding(encoding, path):
            if encoding is None or encoding == "locale":
                if fs.inside(path) and not fs.quiet:
                    fs.implicit_locale.append(fs.rel(path))
                return fs.locale_encoding
            return encoding

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if fs.quiet:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if isinstance(file, int):
                path = fs.fdpath.get(file)
                if path is None:
                    return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            else:
                path = fs.norm(file)
            writing = any(c in mode for c in "wax+")
            target = os.path.realpath(path)
            if not fs.inside(target):
                if writing:
                    fs.check_destructive("open_w", target)
                if "b" in mode:
                    return real_open(file, mode, buffering, closefd=closefd, opener=opener)
                return real_open(file, mode, buffering, text_encoding(encoding, target), errors, newline, closefd, opener)
            binary = "b" in mode
            if binary and (encoding is not None or errors is not None or newline is not None):
                raise ValueError("binary mode doesn't take an encoding/errors/newline argument")
            act = None
            if not isinstance(file, int):
                if "w" in mode and os.path.exists(target):
                    pass
                act = fs.point("open_w" if writing else "open_r", path)
                (fs.written_paths if writing else fs.read_paths).add(fs.rel(path))
            rawmode = mode.replace("t", "").replace("b", "").replace("U", "")
            raw = SimFileIO(fs, file, rawmode, path, closefd=closefd, opener=opener)
            if writing and ("w" in mode):
                fs.dirty[raw._ino] = path
            fs.after(act)
            try:
                if buffering == 0:
                    if not binary:
                        raise ValueError("can't have unbuffered text I/O")
                    return raw
                size = buffering if buffering > 1 else fs.bufsize
                if "+" in mode:
                    buf = io.BufferedRandom(raw, size)
                elif writing:
                    buf = io.BufferedWriter(raw, size)
                else:
                    buf = io.BufferedReader(raw, size)
                if binary:
                    return buf
                text = io.TextIOWrapper(buf, text_encoding(encoding, path), errors, newline, buffering == 1)
                text.mode = mode
                return text
            except BaseException:
                raw.close()
                raise

        builtins.open = sim_open
        io.open = sim_open

        def wrap_open(path, flags, mode=0o777, *, dir_fd=None):
            if fs.quiet:
                return REAL_OS["open"](path, flags, mode, dir_fd=dir_fd)
            p = fs.norm(path) if dir_fd is None else "/<dir_fd>"
            writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if writing:
                fs.check_destructive("open_w", p)
            act = fs.point("open_w" if writing else "open_r", p)
            fd = REAL_OS["open"](path, flags, mode, dir_fd=dir_fd)
            fs.fdpath[fd] = p
            if writing and fs.inside(p):
                (fs.written_paths).add(fs.rel(p))
                fs.dirty[os.fstat(fd).st_ino] = p
            fs.after(act)
            return fd

        def wrap_write(fd, data):
            p = fs.fdpath.get(fd)
            if p is None or fs.quiet:
                return REAL_OS["write"](fd, data)
            return fs.do_write(p, os.fstat(fd).st_ino, bytes(data), lambda b: REAL_OS["write"](fd, b))

        def wrap_read(fd, n):
            p = fs.fdpath.get(fd)
            if p is not None and not fs.quiet:
                act = fs.point("read", p)
                if act == "short" and n > 1:
                    n = max(1, n // 3)
            return REAL_OS["read"](fd, n)

        def wrap_close(fd):
            p = fs.fdpath.pop(fd, None)
            err = None
            if p is not None and not fs.quiet:
                try:
                    fs.point("close", p)
                except OSError as e:
                    err = e
            REAL_OS["close"](fd)
            if err is not None:
                raise err

        def mk_sync(name):
            def wrap_fsync(fd):
                if hasattr(fd, "fileno"):
                    fd = fd.fileno()
                p = fs.fdpath.get(fd)
                if p is None or fs.quiet:
                    return REAL_OS[name](fd)
                act = fs.point("fsync", p)
                fs.dirty.pop(os.fstat(fd).st_ino, None)
                if os.path.isdir(p):
                    fs.meta.clear()
                fs.after(act)

            return wrap_fsync

        def mk_rename(name):
            def wrap_rename(src, dst, **kw):
                if fs.quiet:
                    return REAL_OS[name](src, dst, **kw)
                s, d = fs.norm(src), fs.norm(dst)
                fs.check_destructive("rename", s)
                fs.check_destructive("rename", d)
                act = fs.point("rename", d)
                old = mode = None
                if os.path.isfile(d) and not os.path.islink(d):
                    with real_open(d, "rb") as f:
                        old = f.read()
                    mode = os.stat(d).st_mode & 0o7777
                fs.written_paths.add(fs.rel(d))
                r = REAL_OS[name](src, dst, **kw)
                fs.meta.append(("rename", s, d, old, mode))
                fs.after(act)
                return r

            return wrap_rename

        def mk_path(name, op):
            def wrapped(path, *a, **kw):
                if fs.quiet or isinstance(path, int) or kw.get("dir_fd") is not None:
                    if isinstance(path, int):
                        return REAL_OS[name](path, *a, **kw)
                    if kw.get("dir_fd") is not None and not fs.quiet:
                        fs.deny(op, f"<dir_fd>/{path}")
                    return REAL_OS[name](path, *a, **kw)
                p = fs.norm(path)
                fs.check_destructive(op, p)
                act = fs.point(op, p)
                if op == "unlink":
                    old = None
                    if os.path.isfile(p) and not os.path.islink(p):
                        with real_open(p, "rb") as f:
                            old = f.read()
                    r = REAL_OS[name](path, *a, **kw)
                    fs.meta.append(("unlink", p, old))
                else:
                    r = REAL_OS[name](path, *a, **kw)
                fs.after(act)
                return r

            return wrapped

        def mk_two(name, op):
            def wrapped(src, dst, *a, **kw):
                if fs.quiet:
                    return REAL_OS[name](src, dst, *a, **kw)
                d = fs.norm(dst)
                fs.check_destructive(op, d)
                act = fs.point(op, d)
                r = REAL_OS[name](src, dst, *a, **kw)
                fs.after(act)
                return r

            return wrapped

        os.open, os.write, os.read, os.close = wrap_open, wrap_write, wrap_read, wrap_close
        os.fsync, os.fdatasync = mk_sync("fsync"), mk_sync("fdatasync")
        os.rename, os.replace = mk_rename("rename"), mk_rename("replace")
        os.unlink, os.remove = mk_path("unlink", "unlink"), mk_path("remove", "unlink")
        os.mkdir, os.rmdir = mk_path("mkdir", "mkdir"), mk_path("rmdir", "rmdir")
        os.truncate = mk_path("truncate", "truncate")
        os.chmod, os.chown = mk_path("chmod", "chmod"), mk_path("chown", "chmod")
        os.utime = mk_path("utime", "utime")
        os.link, os.symlink = mk_two("link", "link"), mk_two("symlink", "link")

        def denied(what):
            def f(*a, **kw):
                fs.deny(what, repr(a)[:80])

            return f

        for name in ("mkfifo", "mknod", "lchown", "chroot", "removexattr", "setxattr", "copy_file_range"):
            if hasattr(os, name):
                setattr(os, name, denied(name))
        shutil._USE_CP_SENDFILE = False
        shutil._use_fd_functions = False
        shutil.rmtree.avoids_symlink_attacks = False
        for attr in ("_HAS_FCOPYFILE", "_USE_CP_COPY_FILE_RANGE"):
            if hasattr(shutil, attr):
                setattr(shutil, attr, False)
        tempfile._use_unlink = None
        tempfile.tempdir = os.path.join(self.root, "tmp") if os.path.isdir(os.path.join(self.root, "tmp")) else self.root

        # tempfile draws its names from its own generator: seed it
        names = tempfile._RandomNameSequence()
        names._rng = random.Random(self.rng.random())
        names._rng_pid = REAL_OS["getpid"]()
        tempfile._name_sequence = names
        import locale

        loc = self.locale_encoding
        locale.getpreferredencoding = lambda do_setlocale=True: loc
        if hasattr(locale, "getencoding"):
            locale.getencoding = lambda: loc
        os.device_encoding = lambda fd: None


def rmtree_ok() -> None:
    return None


def valid_locale(name: str) -> bool:
    try:
        codecs.lookup(name)
        return True
    except LookupError:
        return False


_ = sys
