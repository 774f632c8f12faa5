"""Shared engine of the generation properties: a small language of operations on options objects and generators, executed
by the real litgen inside a simulated process, with injected failures (interrupts at a chosen executed line, failing
callbacks, failing native parser, failing reads and writes), and recording every answer."""
from __future__ import annotations
import os
import sys
import threading

from sim import core
from sim.core import HarnessError, put
from sim.env import Env
from sim.headers import KINDS, k_deep, k_warn, vocab_block, EXCLUSIVE, OPTION_OPS, TWINS, any_header, gen_options, make_options

REAL = ["litgen: generator, context, adapters, options", "srcmlcpp: parser, types, warnings", "codemanip", "native srcml library", "CPython interpreter, its threads and xml.etree"]
STUBS = ["fault decisions of every file operation (sim/fs.py)", "clock, random state and entropy", "process id", "child processes", "user callbacks (scripted)"]

HOOKS = ["post_stub", "post_pydef", "preprocess", "match_exclude", "match_boxed", "match_virtual", "match_ns", "ret_policy", "inheritance", "immutable_type", "custom_adapter"]
QUERIES = ["pydef", "stub", "glue", "has_glue", "has_boxed"]
STUB_FILE = b"# hand written\n# <litgen_stub>\n# </litgen_stub>\n"
PYDEF_FILE = b"// hand written\n// <litgen_glue_code>\n// </litgen_glue_code>\nvoid f()\n{\n    // <litgen_pydef>\n    // </litgen_pydef>\n}\n"


class CallbackFailed(Exception):
    pass


class CallbackAbort(BaseException):
    pass


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError, "CallbackFailed": CallbackFailed, "CallbackAbort": CallbackAbort,
       "SystemExit": SystemExit, "ValueError": ValueError}


def where(rng, top):
    """the place of an interrupt: a number of executed lines, or [place, occurrence] (see World.interrupted)"""
    return int(10 ** rng.uniform(0, top)) if rng.random() < 0.5 else [round(rng.random(), 5), round(rng.random(), 3)]


THEMES = KINDS + [k_warn, k_deep] + [lambda rng, u: vocab_block(rng)] * 3


class PerThread:
    """sys.stderr / sys.stdout of the simulated process: each thread sees what it writes"""

    encoding = "utf-8"

    def __init__(self):
        self.local = threading.local()

    def buf(self) -> list:
        b = getattr(self.local, "b", None)
        if b is None:
            b = self.local.b = []
        return b

    def write(self, s):
        self.buf().append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def take(self) -> str:
        b = self.buf()
        s = "".join(b)
        b.clear()
        return s


class World:
    def __init__(self, env: Env, plan: dict, sched=None):
        self.env = env
        self.sched = sched
        self.opts: dict = {}
        self.gens: dict = {}
        self.log: dict = {}  # key (generator or "main") -> results
        self.entries: list = []  # every operation in the order of its end: (operation, answer, nesting)
        self.depth = 0
        self.counts: dict = {}
        self.fired: dict = {}
        self.lines: list = []
        self.actions: dict = {}
        for a in plan.get("actions", []):
            self.actions[(a["oid"], a["hook"], a["k"])] = a["do"]
        self.top = plan.get("_top")
        self.err = PerThread()
        self.threads = threading.local()
        self.armed = None  # [hook, number of calls before it raises, exception], during one operation
        import srcml_caller

        for name in ("to_srcml", "to_code"):
            setattr(srcml_caller, name, self.native(getattr(srcml_caller, name)))
        sys.stderr = self.err
        sys.stdout = self.out = PerThread()

    # ------------------------------------------------------------ failures
    @property
    def native_fail(self) -> dict:
        """the failure of the native parser which this thread is going to meet"""
        if not hasattr(self.threads, "native"):
            self.threads.native = {}
        return self.threads.native

    def fire(self, kind: str) -> None:
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def native(self, real):
        def call(*a, **kw):
            if self.sched is not None:
                self.sched.yield_point("native")
            n = self.native_fail.get("left")
            if n is not None:
                self.native_fail["left"] = n - 1
                if n == 0:
                    self.fire("native-parser-failure")
                    raise EXC[self.native_fail["exc"]]("srcml failed")
            r = real(*a, **kw)
            if self.sched is not None:
                self.sched.yield_point("native")
            return r

        return call

    def places(self, fn) -> dict:
        """the source lines of the code under test that fn executes, with their numbers of executions (found out in a fork)"""
        prefix = core.SRC

        def look(ctx):
            seen: dict = {}

            def loc(frame, event, arg):
                if event == "line":
                    k = f"{frame.f_code.co_filename}:{frame.f_lineno}"
                    seen[k] = seen.get(k, 0) + 1
                return loc

            def tr(frame, event, arg):
                c = frame.f_code
                return loc if c.co_filename.startswith(prefix) and c.co_name != "<module>" else None

            sys.settrace(tr)
            try:
                fn()
            except BaseException:
                pass
            finally:
                sys.settrace(None)
            return seen

        st, seen = core.life(look)
        if st != "ok":
            raise HarnessError(f"looking for places: {st}")
        return seen

    def interrupted(self, fn, n, exc: str):
        """runs fn; the nth line of the code under test raises (n = [place, occurrence], both in [0, 1): at a place drawn among the
        distinct source lines that are executed, which reaches the rarely executed ones)"""
        place = None
        if isinstance(n, list) and (self.sched is not None or self.actions):
            n = int(10 ** (n[0] * 5))  # (looking for places would run other threads, or consume what callbacks do)
        if isinstance(n, list):
            seen = self.places(fn)
            if not seen:
                return fn()
            place = list(seen)[int(n[0] * len(seen))]
            n = 1 + int(n[1] ** 2 * seen[place])
        left = [n]
        prefix = core.SRC

        def loc(frame, event, arg):
            if event == "line":
                if place is not None and f"{frame.f_code.co_filename}:{frame.f_lineno}" != place:
                    return loc
                left[0] -= 1
                if left[0] == 0:
                    sys.settrace(None)
                    self.fire("interrupt:" + exc)
                    self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                    raise EXC[exc]("simulated")
            return loc

        def tr(frame, event, arg):
            c = frame.f_code
            if left[0] > 0 and c.co_filename.startswith(prefix) and c.co_name != "<module>":
                return loc
            return None

        sys.settrace(tr)
        try:
            return fn()
        finally:
            sys.settrace(None)
            self.lines.append(n - left[0])

    def callback(self, oid, hook) -> None:
        if self.armed and self.armed[0] == hook:
            self.armed[1] -= 1
            if self.armed[1] < 0:
                exc = self.armed[2]
                self.armed = None
                self.fire(f"callback-raises:{exc}")
                raise EXC[exc]("simulated")
        k = self.counts.get((oid, hook), 0)
        self.counts[(oid, hook)] = k + 1
        do = self.actions.get((oid, hook, k))
        if do is None:
            return
        if isinstance(do, str):
            self.fire(f"callback-raises:{do}")
            raise EXC[do]("simulated")
        self.fire("callback-reenters")
        old = sys.gettrace()
        sys.settrace(None)
        saved = self.err.buf()[:]
        self.depth += 1
        try:
            for op in do:
                self.do(op)
        finally:
            self.depth -= 1
            self.err.buf()[:] = saved
            sys.settrace(old)

    # ------------------------------------------------------------ options
    def hook_option(self, o, oid, hook) -> None:
        cb = self.callback

        def passthrough(s, tail=""):
            cb(oid, hook)
            return s + tail

        def preprocess(s):
            cb(oid, hook)
            return s.replace("SecondValue", "ScndValue").replace("GetIndex", "GetIndx").replace("int a", "int aa")

        def matcher(value):
            def match(word):
                cb(oid, hook)
                return value(word)

            return match

        if hook == "post_stub":
            o.postprocess_stub_function = lambda s: passthrough(s, "# post\n")
        elif hook == "post_pydef":
            o.postprocess_pydef_function = lambda s: passthrough(s, "// post\n")
        elif hook == "preprocess":
            o.srcmlcpp_options.code_preprocess_function = preprocess
        elif hook == "preprocess_id":
            o.srcmlcpp_options.code_preprocess_function = passthrough
        elif hook == "match_exclude":
            o.fn_exclude_by_name__regex = matcher(lambda w: w.endswith("9"))
        elif hook == "match_boxed":
            o.fn_params_replace_modifiable_immutable_by_boxed__regex = matcher(lambda w: len(w) % 3 != 0)
        elif hook == "match_virtual":
            o.class_override_virtual_methods_in_python__regex = matcher(lambda w: True)
        elif hook == "match_ns":
            o.namespace_exclude__regex = matcher(lambda w: w == "Inner")
        elif hook == "ret_policy":
            o.fn_return_force_policy_reference__callback = lambda f: cb(oid, hook)
        elif hook == "inheritance":
            o.class_custom_inheritance__callback = lambda c, t: (cb(oid, hook), [])[1]
        elif hook == "immutable_type":
            o.fn_params_adapt_mutable_param_with_default_value__fn_is_known_immutable_type = matcher(lambda w: w.startswith("Color"))
        elif hook == "custom_adapter":
            o.fn_custom_adapters = [lambda f: (cb(oid, hook), None)[1]]
        else:
            raise HarnessError(hook)

    def configure(self, o, oid, names) -> None:
        for n in names:
            if n.startswith("cb:"):
                self.hook_option(o, oid, n[3:])
            else:
                OPTION_OPS[n](o)

    # ------------------------------------------------------------ operations
    def do(self, op) -> None:
        key = op.get("key", op.get("g", "main"))
        before = self.err.take()
        self.out.take()
        outer = dict(self.native_fail) if self.native_fail else None
        if outer:
            self.native_fail.clear()
        fn = lambda: self.act(op)  # noqa: E731
        try:
            if "cb" in op:
                self.armed = list(op["cb"])
            if "native" in op:
                self.native_fail.update(left=op["native"][0], exc=op["native"][1])
            if "interrupt" in op:
                r = ("ok", self.interrupted(fn, op["interrupt"][0], op["interrupt"][1]))
            else:
                r = ("ok", fn())
        except HarnessError:
            raise
        except BaseException as e:
            r = ("exc", type(e).__name__, str(e)[:2000])
        finally:
            if "cb" in op:
                self.armed = None
            if "native" in op:
                self.native_fail.clear()
            if outer:
                self.native_fail.update(outer)
        w = self.err.take()
        self.err.write(before)
        shown = "%" in self.out.take()  # the progress of the work was displayed
        self.log.setdefault(key, []).append((op["op"], r, w, shown))
        self.entries.append((op, r, self.depth))
        if r[0] == "exc" and op.get("rethrow"):
            raise EXC["CallbackFailed"]("nested failure")

    @staticmethod
    def known(objects, name):
        """an object made by an earlier operation of the plan"""
        if name not in objects:
            raise HarnessError(f"the plan uses {name!r} before making it")
        if objects[name] is None:
            raise KeyError(name)  # (making it failed)
        return objects[name]

    def opt(self, op):
        return self.known(self.opts, op["o"])

    def act(self, op):
        import litgen
        import srcmlcpp

        k = op["op"]
        if self.top and k in ("genfile", "wfile", "wone", "parsefile", "file", "save"):  # headers named by their absolute path
            op = dict(op, **{a: full(op[a], self.top) for a in ("name", "names") if a in op})
        if k == "opt":
            self.opts[op["o"]] = None
            if op.get("copy"):
                import copy

                o = copy.deepcopy(self.known(self.opts, op["copy"]))
            else:
                o = make_options([])
            self.configure(o, op["o"], op["names"])
            self.opts[op["o"]] = o
            return None
        if k == "merge":  # the options o take over the replacements of the options "of"
            mine, theirs = self.opt(op), self.known(self.opts, op["of"])
            for n in REPLACEMENTS:
                getattr(mine, n).merge_replacements(getattr(theirs, n))
            return None
        if k == "conf":
            self.configure(self.opt(op), op["o"], op["names"])
            return None
        if k == "new":
            self.gens[op["g"]] = None
            self.gens[op["g"]] = litgen.LitgenGenerator(self.opt(op), op.get("omit", False))
            return None
        if k == "proc":
            self.known(self.gens, op["g"]).process_cpp_code(op["code"], op.get("name", ""))
            return None
        if k == "file":
            self.known(self.gens, op["g"]).process_cpp_file(op["name"])
            return None
        if k == "q":
            g = self.known(self.gens, op["g"])
            w = op["what"]
            if w == "pydef":
                return g.pydef_code()
            if w == "stub":
                return g.stub_code()
            if w == "glue":
                return g.glue_code()
            if w == "has_glue":
                return g.has_glue_code()
            if w == "has_boxed":
                return g.has_boxed_types()
            raise HarnessError(w)
        if k == "write":
            t = op["tag"]
            self.known(self.gens, op["g"]).write_generated_code(t + ".cpp", t + ".pyi", t + "_glue.cpp" if op.get("glue") else "")
            return [core.get(t + ".cpp"), core.get(t + ".pyi"), core.get(t + "_glue.cpp")]
        if k == "gen":
            r = litgen.generate_code(self.opt(op), op["code"], op.get("omit", False))
            return [r.pydef_code, r.stub_code, r.glue_code]
        if k == "genfile":
            r = litgen.generate_code_for_file(self.opt(op), op["name"])
            return [r.pydef_code, r.stub_code, r.glue_code]
        if k == "wone":
            t = op["tag"]
            litgen.write_generated_code_for_file(self.opt(op), op["name"], t + ".cpp", t + ".pyi", t + "_glue.cpp" if op.get("glue") else "")
            return [core.get(t + ".cpp"), core.get(t + ".pyi"), core.get(t + "_glue.cpp")]
        if k == "wfile":
            t = op["tag"]
            litgen.write_generated_code_for_files(self.opt(op), op["names"], t + ".cpp", t + ".pyi", t + "_glue.cpp" if op.get("glue") else "")
            return [core.get(t + ".cpp"), core.get(t + ".pyi"), core.get(t + "_glue.cpp")]
        if k in ("parse", "yaml", "type", "parsefile", "first"):
            so = self.opt(op).srcmlcpp_options
        if k == "parse":
            u = srcmlcpp.code_to_cpp_unit(so, op["code"], op.get("name") or None)
            return [str(u), u.str_code_verbatim()]
        if k == "yaml":
            u = srcmlcpp.srcmlcpp_main.code_to_srcml_wrapper(so, op["code"], op.get("name") or None)
            return [u._str_simplified_yaml(), u.str_xml()]
        if k == "parsefile":
            u = srcmlcpp.code_to_cpp_unit(so, None, op["name"])
            return [str(u), u.str_code_verbatim()]
        if k == "adapt":
            from litgen.code_to_adapted_unit import code_to_adapted_unit

            a = code_to_adapted_unit(self.opt(op), op["code"], op.get("name") or None)
            return [a.str_stub(), a.str_pydef(), a.str_stub()]
        if k == "adapt_ctx":  # several units of one context
            from litgen.code_to_adapted_unit import code_to_adapted_unit_in_context
            from litgen.internal.context.litgen_context import LitgenContext

            ctx = LitgenContext(self.opt(op))
            units = [code_to_adapted_unit_in_context(ctx, c) for c in op["codes"]]
            return [[a.str_stub(), a.str_pydef()] for a in units]
        if k == "helper":
            from litgen.litgen_generator import LitgenGeneratorTestsHelper as h

            return [h.code_to_pydef(self.opt(op), op["code"]), h.code_to_stub(self.opt(op), op["code"])]
        if k == "first":
            r = []
            for f in ("code_first_function_decl", "code_first_enum", "code_first_decl_statement", "code_first_decl", "code_first_struct"):
                try:
                    e = getattr(srcmlcpp.srcmlcpp_main, f)(so, op["code"])
                    r.append([str(e), e.str_code_verbatim()])
                except Exception as e:
                    r.append([type(e).__name__, str(e)[:300]])
            return r
        if k == "demo":  # the HTML of a notebook cell
            from litgen.demo import litgen_demo
            from props import viewer

            page: list = []
            viewer.collect(page.append)
            litgen_demo.demo(self.opt(op), op["code"], height=op.get("height", 40))
            return [v[3:] for v in viewer.parse("".join(page))[1]]
        if k == "port":
            from litgen import cpp_port_helper

            return [cpp_port_helper.cpp_to_snake_case(op["code"]), cpp_port_helper.cpp_to_python_helper(op["code"])]
        if k == "cli":  # the commands of a terminal, with the default options
            from litgen.cli.litgen_cli import LitgenCliCommands
            from srcmlcpp.cli.srcmlcpp_cli import SrcmlcppCliCommands

            r = []
            for c, n in [(LitgenCliCommands, n) for n in ("stub", "pydef", "glue", "cpp_to_snake_case")] + [(SrcmlcppCliCommands, n) for n in ("cpp_elements", "xml")]:
                self.out.take()
                getattr(c, n)(op["code"])
                # (the display of the progress belongs to all threads)
                r.append("\n".join(x.split("\r")[-1] for x in self.out.take().split("\n")).strip())
            return r
        if k == "type":
            return str(srcmlcpp.srcmlcpp_main.code_to_cpp_type(so, op["code"]))
        if k == "save":
            put(op["name"], op["code"].encode("utf-8"))  # (always with the same modification time)
            return None
        if k == "rm":
            if os.path.exists(op["name"]):
                os.chmod(op["name"], 0o600)
                core.REAL_OS["unlink"](op["name"])
            return None
        raise HarnessError(k)


REPLACEMENTS = ["type_replacements", "value_replacements", "function_names_replacements", "var_names_replacements", "namespace_names_replacements", "macro_name_replacements", "comments_replacements", "fn_params_type_replacements"]


def full(name, top):
    if isinstance(name, list):
        return [full(n, top) for n in name]
    return os.path.join(top, "abs", name[4:]) if name.startswith("ABS/") else name


def lay_out(plan) -> None:
    for t in plan.get("outputs", []):
        put(t + ".cpp", PYDEF_FILE)
        put(t + ".pyi", STUB_FILE)
        put(t + "_glue.cpp", b"// <litgen_glue_code>\n// </litgen_glue_code>\n")
    for n, c in plan.get("files", {}).items():
        put(n, c.encode("utf-8"))


def life_ops(ctx, plan, ops, spec=None):
    """one process incarnation executes a sequence of operations"""
    env = Env(ctx, dict(spec or plan.get("env", {}) or {}))
    env.install()
    w = World(env, plan)
    for op in ops:
        w.do(op)
    rep = env.report()
    rep["results"] = w.log
    rep["entries"] = w.entries
    for k, v in w.fired.items():
        rep["fired"][k] = rep["fired"].get(k, 0) + v
    rep["counts"] = {f"{a}/{b}": c for (a, b), c in w.counts.items()}
    rep["lines"] = w.lines
    rep["where"] = getattr(w, "where", "")
    return rep


def brief(r) -> str:
    return repr(r)[:200]


def diff(a, b) -> str:
    """where do two answers differ?"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f"[{i}]" + diff(x, y)
    if isinstance(a, str) and isinstance(b, str):
        la, lb = a.split("\n"), b.split("\n")
        for i, (x, y) in enumerate(zip(la, lb)):
            if x != y:
                return f" line {i}: {x!r} instead of {y!r}"
        return f" {len(la)} lines instead of {len(lb)}: {(la[len(lb):] or lb[len(la):])[:3]}"
    return f" {brief(a)} instead of {brief(b)}"


# ------------------------------------------------------------ generation of plans
class Pool(list):
    """the headers used so far; often of a theme: a few kinds of declarations whose names coincide"""

    def __init__(self, rng):
        super().__init__()
        self.theme = rng.sample(THEMES, rng.choice([1, 1, 2])) if rng.random() < 0.4 else None


def themed(rng, theme, nmax) -> str:
    return "".join(rng.choice(theme)(rng, str(rng.randint(0, 2))) for _ in range(rng.randint(1, nmax + 1)))


def gen_code(rng, tag, pool: list | None = None, nmax=4) -> str:
    """a header: often one that was already used, or a variant of it"""
    if pool and rng.random() < 0.3:
        return rng.choice(pool)
    theme = getattr(pool, "theme", None)
    c = themed(rng, theme, nmax) if theme and rng.random() < 0.8 else any_header(rng, tag, nmax=nmax)
    if pool is not None:
        pool.append(c)
    return c


def gen_other(rng, o, key, code, name, files=None, demo=False) -> dict:
    """one of the other entry points of the library"""
    k = rng.choice(["parse", "parse", "yaml", "adapt", "adapt", "adapt_ctx", "helper", "first", "port", "type", "cli"] + (["parsefile"] if files is not None else []) + ["demo"] * 2 * demo)
    op = dict(op=k, o=o, key=key, code=code, name=name)
    if k == "adapt_ctx":
        op["codes"] = [code] + [gen_code(rng, f"x{i}", None, 2) for i in range(rng.randint(1, 2))]
    elif k == "type":
        op["code"] = rng.choice(["int", "std::vector<int>", "const char *", "Foo<int, 3> &", "unsigned long long"])
    elif k == "parsefile":
        f = f"p{len(files)}.h"
        files[f] = code
        op["name"] = f
    if key is None:
        del op["key"]
    return op


def gen_name(rng) -> str:
    return rng.choice(["", "", "a.h", "lib/a.h", "b.h", "é.h", "a.h", "lib/b.h", rng.choice(["$HOME/x.h", "~/x.h", "~root/y.h", "${USER}.h", "%TEMP%/a.h", "lib/../a.h", "./a.h", "lib//a.h", "C:\\lib\\a.h", " a.h"])])


BAN = ("progress",)


def twin(rng, names) -> list:
    """options of the same shape with other contents"""
    out = list(names)
    if not any(n in TWINS for n in out):
        out.append(rng.choice(sorted(TWINS)))
    return [TWINS.get(n, n) for n in out]


def gen_opts(rng, hooks=0.0, nmax=4, ban=()) -> list:
    names = gen_options(rng, 0.6, nmax, ban=ban)
    for n in ("custom_main", "custom_ns", "tpl_fn", "tpl_class"):
        if n not in names and rng.random() < 0.15 and n not in ban:
            names.append(n)
    for h in HOOKS:
        if rng.random() < hooks:
            names.append("cb:" + h)
    return names
