"""Simulated child processes: nothing is ever spawned. subprocess.Popen (hence run, call, check_call, check_output),
os.system and os.popen end up here. What each program does is a handler of the harness, and its fate (absent, killed,
error exit, unspawnable, partial effect) is a decision of the plan."""
from __future__ import annotations
import errno
import io
import os
import re
import shlex
import subprocess
import sys
from collections import Counter
from xml.sax.saxutils import quoteattr

from sim.core import stable_name

OPERATORS = {";", "&&", "||", "|", "&", ">", ">>", "<", "(", ")", "\n"}


class Child:
    """One spawned program"""

    def __init__(self, argv, cwd, env, shell):
        self.argv, self.cwd, self.env, self.shell = argv, cwd, env, shell


class SimProc:
    def __init__(self, fs, handlers, fates=(), sched=None, locale_encoding="utf-8"):
        self.fs = fs
        self.handlers = handlers  # program name -> handler(child, fate) -> (rc, stdout bytes, stderr bytes)
        self.fates = list(fates)
        self.calls: list = []
        self.fired: Counter = Counter()
        self.sched = sched
        self.locale_encoding = locale_encoding
        self.nspawn = 0
        self.default_fate = {"kind": "ok"}
        self.fate_of = None  # optional function(child, n) -> fate

    def next_fate(self, child) -> dict:
        n = self.nspawn
        self.nspawn += 1
        if self.fate_of is not None:
            f = self.fate_of(child, n)
            if f is not None:
                return f
        if n < len(self.fates):
            return self.fates[n]
        return self.default_fate

    # -------------------------------------------------------------- execution
    def program(self, argv):
        prog = os.path.basename(os.fspath(argv[0]))
        rest = [os.fspath(a) for a in argv[1:]]
        if prog.startswith("python") or argv[0] == sys.executable:
            if len(rest) >= 2 and rest[0] == "-m":
                return rest[1], rest[2:]
            return "python", rest
        return prog, rest

    def execute(self, argv, cwd, env, shell):
        """-> (rc, out, err) ; raises OSError when the program cannot be spawned"""
        prog, rest = self.program(argv)
        child = Child([prog] + rest, cwd, env, shell)
        fate = self.next_fate(child)
        kind = fate["kind"]
        rec = dict(argv=[stable_name(str(a)) for a in child.argv], cwd=stable_name(os.path.relpath(cwd, self.fs.root) if self.fs else cwd), fate=kind, shell=shell)
        self.calls.append(rec)
        if kind != "ok":
            self.fired[f"child-{kind}:{prog}"] += 1
        if kind == "absent" or prog not in self.handlers:
            if prog not in self.handlers:
                self.fired["child-unknown-program"] += 1
            if shell:
                return 127, b"", f"sh: 1: {prog}: not found\n".encode()
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", prog)
        if kind == "unspawnable":
            e = [errno.EACCES, errno.ENOMEM, errno.EAGAIN, errno.E2BIG][fate.get("e", 0) % 4]
            if shell:
                if e != errno.ENOMEM and e != errno.EAGAIN:
                    return 126, b"", b"sh: 1: cannot execute\n"
            raise OSError(e, os.strerror(e), prog)
        return self.handlers[prog](child, fate)

    def run_command(self, args, cwd, env, shell):
        if not shell:
            argv = [args] if isinstance(args, (str, bytes, os.PathLike)) else list(args)
            argv = [os.fsdecode(a) for a in argv]
            return self.execute(argv, cwd, env, False)
        cmd = args if isinstance(args, str) else os.fsdecode(args[0]) if not isinstance(args, bytes) else os.fsdecode(args)
        try:
            lex = shlex.shlex(cmd, posix=True, punctuation_chars=";&|<>()")
            lex.whitespace_split = True
            lex.commenters = ""
            tokens = list(lex)
        except ValueError:
            return 2, b"", b"sh: 1: Syntax error: Unterminated quoted string\n"
        commands, cur, op, redirect = [], [], ";", False
        for t in tokens:
            if t and all(c in ";&|<>()" for c in t):
                if "<" in t or ">" in t:
                    redirect = True
                    continue
                commands.append((op, cur))
                cur, op = [], t
                redirect = False
            elif redirect:
                redirect = False
            else:
                cur.append(t)
        commands.append((op, cur))
        rc, out, err = 0, b"", b""
        for op, argv in commands:
            if not argv:
                continue
            if op == "&&" and rc != 0:
                continue
            if op == "||" and rc == 0:
                continue
            if argv[0] == "cd" and len(argv) > 1:
                cwd = os.path.join(cwd, argv[1])
                rc = 0 if os.path.isdir(cwd) else 2
                continue
            if argv[0] == "exec":
                argv = argv[1:]
            rc, out, err = self.execute(argv, cwd, env, True)
        return rc, out, err

    # -------------------------------------------------------------- installation
    def install(self) -> None:
        sp = self

        class SimPopen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                         close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                         creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None,
                         group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                         process_group=None):
                self.args = args
                self.pid = 4000 + sp.nspawn
                self.returncode = None
                run_cwd = os.path.abspath(os.fspath(cwd)) if cwd is not None else os.getcwd()
                if cwd is not None and not os.path.isdir(run_cwd):
                    raise FileNotFoundError(errno.ENOENT, "No such file or directory", os.fspath(cwd))
                if sp.sched is not None:
                    sp.sched.yield_point("spawn")
                self._rc, out, err = sp.run_command(args, run_cwd, env, shell)
                if sp.sched is not None:
                    sp.sched.yield_point("spawned")
                textmode = text or universal_newlines or encoding or errors
                enc = encoding or sp.locale_encoding

                def pipe(data):
                    if textmode:
                        return io.TextIOWrapper(io.BytesIO(data), enc, errors)
                    return io.BytesIO(data)

                if stderr == subprocess.STDOUT:
                    out, err = out + err, b""
                self.stdout = pipe(out) if stdout == subprocess.PIPE else None
                self.stderr = pipe(err) if stderr == subprocess.PIPE else None
                self.stdin = pipe(b"") if stdin == subprocess.PIPE else None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()

            def __class_getitem__(cls, item):
                return cls

            def communicate(self, input=None, timeout=None):
                self.wait()
                return (self.stdout.read() if self.stdout else None, self.stderr.read() if self.stderr else None)

            def wait(self, timeout=None):
                self.returncode = self._rc
                return self.returncode

            def poll(self):
                return self.wait()

            def kill(self):
                pass

            terminate = kill

            def send_signal(self, sig):
                pass

        subprocess.Popen = SimPopen

        def system(cmd):
            rc, out, err = sp.run_command(cmd, os.getcwd(), None, True)
            return rc << 8 if rc >= 0 else -rc

        os.system = system

        def denied(name):
            def f(*a, **kw):
                raise OSError(errno.EPERM, f"{name} is not simulated")

            return f

        for name in ("posix_spawn", "posix_spawnp", "execv", "execve", "execvp", "execvpe", "fork", "forkpty", "kill", "killpg",
                     "spawnv", "spawnve", "spawnvp", "spawnl", "spawnlp", "popen"):
            if hasattr(os, name):
                setattr(os, name, denied(name))
        import shutil

        def which(cmd, mode=None, path=None):
            base = os.path.basename(cmd)
            if base not in sp.handlers or sp.peek_absent(base):
                return None
            return "/sim/bin/" + base

        shutil.which = which

    def peek_absent(self, prog) -> bool:
        if self.fate_of is not None:
            return False
        f = self.fates[self.nspawn] if self.nspawn < len(self.fates) else self.default_fate
        return f["kind"] == "absent"


# ------------------------------------------------------------------ programs
def killed_or_exit(fate):
    k = fate["kind"]
    if k == "killed":
        return -[9, 11, 6, 15][fate.get("e", 0) % 4]
    if k == "exit":
        return [1, 2, 123, 255, 5, 127, 3, 4, 126, 77, 128, 256 - 128 + 64][fate.get("e", 0) % 12]
    return 0


def shell_rc(child, rc):
    """a shell reports a signalled child as 128+n"""
    return 128 - rc if (child.shell and rc < 0) else rc


def black_handler(fs):
    """The real black formatter, run in process on the files named by its command line"""
    import black

    def handler(child, fate):
        files, line_length, target, only_files = [], 88, set(), False
        args = child.argv[1:]
        i = 0
        while i < len(args):
            a = args[i]
            if only_files or not a.startswith("-") or a == "-":
                files.append(a)
            elif a == "--":
                only_files = True
            elif a in ("--line-length", "-l", "--target-version", "-t"):
                i += 1
                if i >= len(args):
                    return 2, b"", b"Error: option requires an argument\n"
                if a in ("--line-length", "-l"):
                    try:
                        line_length = int(args[i])
                    except ValueError:
                        return 2, b"", b"Error: invalid integer\n"
            elif a.startswith("--line-length="):
                line_length = int(a.split("=")[1])
            elif a.startswith(("--target-version=", "--pyi", "-q", "--quiet", "-v", "--fast", "--safe")):
                pass
            else:
                return 2, b"", f"Error: No such option: {a}\n".encode()
            i += 1
        _ = target
        if not files:
            return shell_rc(child, 1), b"", b"Usage: black [OPTIONS] SRC ...\n"
        rc = killed_or_exit(fate)
        if rc != 0 and fate.get("when", "before") == "before":
            return shell_rc(child, rc), b"", b"error\n"
        old_quiet, fs.quiet = fs.quiet, True
        try:
            for f in files:
                p = os.path.join(child.cwd, f)
                if not os.path.isfile(p):
                    return shell_rc(child, 2), b"", f"Error: Invalid value for 'SRC ...': Path '{f}' does not exist.\n".encode()
                if not fs.inside(os.path.realpath(p)):
                    fs.escapes.append(("black", p))
                    return 1, b"", b""
                with io.FileIO(p, "r") as h:
                    src = h.readall().decode("utf-8")
                mode = black.Mode(is_pyi=p.endswith(".pyi"), line_length=line_length, target_versions={black.TargetVersion.PY310})
                try:
                    dst = black.format_file_contents(src, fast=True, mode=mode)
                except black.NothingChanged:
                    dst = None
                except Exception as e:
                    return shell_rc(child, 123), b"", f"error: cannot format {f}: {e}\n".encode()
                if dst is not None:
                    with io.FileIO(p, "w") as h:
                        h.write(dst.encode("utf-8"))
        finally:
            fs.quiet = old_quiet
        return shell_rc(child, rc), b"", b"reformatted\n"

    return handler


def srcml_handler(fs, sched=None):
    """The srcml program, played by the native srcml library, through the files named by its command line"""
    import srcml_caller

    def yp(what):
        if sched is not None:
            sched.yield_point(what)

    def handler(child, fate):
        args = child.argv[1:]
        opts, files, pos = {}, [], False
        i = 0
        val = {"-l", "--language", "--xml-encoding", "--src-encoding", "-o", "--output"}
        while i < len(args):
            a = args[i]
            if a in val:
                i += 1
                opts[a] = args[i] if i < len(args) else ""
            elif a.startswith("--") and "=" in a and a.split("=")[0] in val:
                opts[a.split("=")[0]] = a.split("=", 1)[1]
            elif a == "--position":
                pos = True
            elif a.startswith("-") and a != "-":
                return shell_rc(child, 1), b"", f"srcml: unknown option {a}\n".encode()
            else:
                files.append(a)
            i += 1
        out_name = opts.get("-o", opts.get("--output"))
        xenc = opts.get("--xml-encoding", "utf-8")
        senc = opts.get("--src-encoding", "utf-8")
        rc = killed_or_exit(fate)
        when = fate.get("when", "before")
        if rc != 0 and when == "before":
            return shell_rc(child, rc), b"", b"srcml: error\n"
        yp("srcml-start")
        if len(files) != 1:
            return shell_rc(child, 1), b"", b"srcml: input\n"
        p = os.path.join(child.cwd, files[0])
        try:
            with io.FileIO(p, "r") as h:
                data = h.readall()
        except OSError:
            return shell_rc(child, 1), b"", b"srcml: cannot read input\n"
        yp("srcml-read")
        if p.endswith(".xml"):
            code = srcml_caller.to_code(xml_str=data.decode("utf-8"), encoding_xml="utf-8", encoding_src="utf-8")
            result = code.encode(senc)
        else:
            text = data.decode(senc)
            xml = srcml_caller.to_srcml(code=text, language=srcml_caller.CodeLanguage.c_plus_plus, encoding_src="utf-8",
                                        encoding_xml="utf-8", include_positions=pos)
            xml = xml.replace('<unit revision="1.0.0"', '<unit xmlns="http://www.srcML.org/srcML" xmlns:pos="http://www.srcML.org/srcML/position" xmlns:cpp="http://www.srcML.org/srcML/cpp" revision="1.0.0"')
            # (as the real program does, the unit names the file it was given)
            xml = re.sub(r'(<unit [^>]*?)(/?>)', lambda m: m.group(1) + ' filename=%s' % quoteattr(files[0]) + m.group(2), xml, count=1)
            head = '<?xml version="1.0" encoding="%s" standalone="yes"?>\n' % ("UTF-8" if xenc.lower() in ("utf-8", "utf8") else xenc)
            result = (head + xml).encode(xenc, "xmlcharrefreplace")
        yp("srcml-computed")
        if fate["kind"] == "no-output":
            return 0, b"", b""
        if out_name is None:
            return shell_rc(child, rc), result, b""
        op = os.path.join(child.cwd, out_name)
        if not fs.inside(os.path.realpath(op)):
            fs.escapes.append(("srcml", op))
            return 1, b"", b""
        if rc != 0 and when == "partial":
            result = result[: len(result) // 2]
        try:
            with io.FileIO(op, "w") as h:
                half = len(result) // 2
                h.write(result[:half])
                yp("srcml-half-written")
                h.write(result[half:])
        except OSError:
            return shell_rc(child, 1), b"", b"srcml: cannot write output\n"
        yp("srcml-written")
        return shell_rc(child, rc), b"", b""

    return handler
