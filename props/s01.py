"""S01: reading a parsed C++ tree is pure, and parses are independent."""
from __future__ import annotations
import copy
import os
import random
import sys

from sim import core
from sim.core import HarnessError, digest
from sim.env import Env
from sim.sched import Sched, elementtree_file
from props import gen as G
from props.gen import REAL, STUBS  # noqa: F401

RULE = ("one to three parsed trees are asked questions (printing, overviews, xml, positions, scopes, class, function, type and enum facts; qualified, terse, specialised and copied elements), in seeded order, repeatedly, some interrupted at a seeded executed "
        "line, with other parses (some failing) and modifications of copies in between, in one thread, or in two or three that have a tree each; every answer is compared with the answers of a fresh process that is asked in the opposite order, and some (and all that differ) with the only question asked of a freshly parsed tree in a fresh process; "
        "non-trivial: at least five answers were compared")
STATE_MEASURE = "digest of the order of questions with the kinds of their answers, and of the schedule in threads"
STEP_MEANING = "questions and parses"
BUDGET = {"quick": 60, "thorough": 500}
MUST_HIT = ["asked", "interrupted", "derived", "copy-modified", "parse-between", "threads", "repeated", "list"]
MUST_HIT_RUNS = 300
SHRINK_KEYS = ["schedule", "asks", "schedule", "trees"]

PLAIN = """str_code str_code_verbatim str_commented str_block str_template str_template_specialization str_template_type str_code_location str_return_type str_full_return_type
tag text has_text extract_name_from_xml short_xml_info short_cpp_element_info depth self_scope cpp_scope cpp_scope_str hierarchy_overview start end name is_final qualified_class_name
qualified_class_name_with_specialization class_name_with_specialization has_base_classes base_classes has_user_defined_default_constructor has_user_defined_default_constructor_zero_param
has_user_defined_default_constructor_non_zero_param has_user_defined_constructor has_deleted_default_constructor get_user_defined_copy_constructor is_user_defined_copy_constructor_part_of_api
has_private_destructor get_methods get_members_with_access_type get_members is_virtual has_return_type is_noexcept qualified_function_name qualified_function_name_with_specialization
function_name_with_specialization is_inferred_return_type is_arrow_notation_return_type is_const is_method method_access_type is_virtual_method is_overloaded_method parent_struct_if_method
access_type_if_method parent_struct_name_if_method is_constructor is_destructor is_default_constructor_zero_param is_default_constructor is_copy_constructor is_operator operator_name
returns_pointer returns_pointer_to_pointer returns_reference returns_void is_static is_static_method type_name_default_for_signature is_template_param full_type has_default_value default_value
variable_name list_types_names_only str_types_names_only contains_pointer_to_pointer_param list_types_names_default_for_signature str_types_names_default_for_signature str_names_only_for_call
str_types_only_for_overload has_name_or_ellipsis is_c_string_list_ptr is_bitfield is_c_array c_array_size_as_str c_array_size_as_int is_c_array_known_fixed_size is_c_array_fixed_size_unparsable
parent_enum_if_applicable decl_context name_without_modifier_specifier is_reference is_raw_pointer is_void is_inferred_type is_template is_optional template_name template_instantiated_unique_type
is_template_partially_specialized is_template_fully_specialized is_enum_class get_enum_decls get_children_with_filled_decl_values all_functions all_structs_recursive all_functions_recursive
all_decl_statement_recursive all_decl_recursive all_cpp_elements_recursive with_qualified_types with_terse_types root_cpp_unit ancestors_list str_xml""".split()
PROPERTIES = ["block", "block_children", "super_list", "parameter_list", "parameters", "return_type", "cpp_type", "decl", "cpp_decls", "template", "noexcept", "specifiers", "modifiers", "typenames",
              "initial_value_code", "decl_name", "class_name", "function_name", "enum_name", "ns_name", "cpp_element_comments", "access_type"]
SPECIAL = ["yaml", "xml_bare", "caret", "scope_self", "scope_str_self", "virtual_all", "virtual_own", "ancestors_self", "public_members", "find", "named", "overloaded", "qualify", "define", "warning", "children", "tree"]
QUERIES = PLAIN + PROPERTIES + SPECIAL
# asked more often: what is cached or built on demand
HOT = ["cpp_scope", "cpp_scope_str", "scope_self", "scope_str_self", "with_qualified_types", "with_terse_types", "str_code", "hierarchy_overview", "virtual_all", "virtual_own", "base_classes", "get_children_with_filled_decl_values",
       "c_array_size_as_int", "qualify", "define", "find", "str_commented", "tree", "parent_struct_name_if_method", "is_overloaded_method", "overloaded", "is_copy_constructor"]
DERIVE = ["copy", "qualified", "terse", "spec", "qualified_root", "terse_in", "qualified_in"]
TYPED = ["str_code", "with_qualified_types", "with_terse_types", "parameter_list", "tree", "cpp_type", "return_type", "initial_value_code", "ancestors_list", "parent_struct_if_method", "decl_context", "root_cpp_unit"]
EXC = ["KeyboardInterrupt", "MemoryError"]

MACROS = "#define SIZE_A 4\n#define SIZE_B SIZE_A\n#define Other_Value 7\n"
TYPICAL = [
    MACROS + "namespace Ns\n{\n// about S\nstruct S\n{\n    int v[SIZE_A]; // eol\n    S(const S& o);\n    S other(S s = S(), int w[SIZE_B] = {});\n    virtual void go(S& s) = 0;\n    virtual ~S() = default;\n    enum class E { a, b = 4, c };\n    E e = E::a;\n};\n"
    "struct D : public S\n{\n    void go(S& s) override;\n    void go(int i);\n    template<typename T> T get(T t = T());\nprotected:\n    virtual E hidden(E e = E::b);\n};\nenum F { F_a, F_b = F_a + 3, F_c };\nvoid use(D d, F f = F_b, S::E e = S::E::c);\n}\n"
    "template<class T> struct Box { T value; T get() const; void set(T t, Ns::S s = Ns::S()); };\nBox<int> make(Ns::D& d);\n",
    MACROS + "namespace N1\n{\n    struct Base { virtual void a(int i); int x[NX]; };\n    struct D1 : public Base { void a(int i) override; };\n    enum E { e1 = NX, e2, e3 = e1 + NX, e4 = SIZE_B };\n}\n"
    "namespace N2\n{\n    struct Base { virtual void b(float f) const = 0; virtual ~Base(); };\n    struct D1 : public Base { void b(float f) const override; };\n    struct D2 : public N1::Base, protected Base { void b(float f) const override; };\n"
    "    enum class E { e1, e2 = 1 << 3, e3 = NY };\n    void take(Base& b, N1::Base& c, E e = E::e2, N1::E g = N1::e2, int v[NX] = {});\n}\nstruct D3 : public N2::D2, private N1::D1 { using N2::D2::b; };\n",
    "namespace A { namespace B { struct T { int i; }; T f(T t = T()); } B::T g(B::T t = B::T()); struct T { B::T inner; T* next; }; }\nA::B::T h(A::T t, const A::B::T& u);\nA::T f();\nvoid f(int a);\nvoid f(int a, int b);\n",
]


def gen_tree(rng, pool):
    code = rng.choice(TYPICAL) if rng.random() < 0.35 else G.gen_code(rng, "", pool, 4)
    if rng.random() < 0.2:
        code = MACROS + code + "struct Arr { int x[SIZE_A]; float y[SIZE_B][Other_Value]; int z[UNKNOWN_SIZE]; };\n"
    names = G.gen_opts(rng, 0, 3, ban=("progress",))
    for n in ("num_macros", "num_macros2"):
        if n not in names and rng.random() < 0.3:
            names.append(n)
    return dict(code=code, name=G.gen_name(rng), names=names)


def gen_ask(rng, ks, pool, spots=()):
    x = rng.random()
    if x < 0.07:
        op = dict(op="parse", tree=gen_tree(rng, pool))
    elif x < 0.17:
        op = dict(op="mutate", k=rng.choice(ks), e=rng.randint(0, 60), how=rng.randint(0, 7))
    else:
        op = dict(op="ask", k=rng.choice(ks), e=rng.choice([0, rng.randint(0, 15), rng.randint(0, 80)]), q=rng.choice(HOT if rng.random() < 0.55 else QUERIES))
        if spots and rng.random() < 0.75:  # many questions about the same few elements
            op["e"] = max(0, rng.choice(spots) + rng.choice([0, 0, 0, 1, 1, 2, 3, -1, -2]))  # (or close to them: what belongs to them)
            if rng.random() < 0.5:
                op["q"] = rng.choice(TYPED)
        if rng.random() < 0.4:
            op["d"] = [rng.choice(DERIVE) for _ in range(rng.choice([1, 1, 2, 3]))]
        op["arg"] = rng.choice(spots) if spots and rng.random() < 0.5 else rng.randint(0, 40)
    if rng.random() < 0.12:
        op["interrupt"] = [G.where(rng, 3.5 if op["op"] != "parse" else 4.3), rng.choice(EXC)]
    return op


def probe(rng) -> dict:
    """trees of the same code; of each: a few questions, one that is interrupted at a place drawn for this tree, and then questions about what it may have left half done"""
    pool = G.Pool(rng)
    tree = gen_tree(rng, pool)
    asks = []
    n = rng.choice([4, 8, 12])
    for k in range(n):
        for _ in range(rng.choice([0, 0, 1, 3])):
            asks.append(gen_ask(rng, [k], pool))
        q = rng.choice(HOT if rng.random() < 0.7 else QUERIES)
        op = dict(op="ask", k=k, e=rng.choice([0, rng.randint(0, 80)]), q=q, arg=rng.randint(0, 40))
        if rng.random() < 0.3:
            op["d"] = [rng.choice(DERIVE)]
        asks.append(dict(op, interrupt=[G.where(rng, 3) if rng.random() < 0.3 else [round(rng.random(), 5), round(rng.random(), 3)], rng.choice(EXC)]))
        after = [dict(op), dict(op, arg=op["arg"] + 1), dict(op, e=op["e"] + 1)] + [dict(op="ask", k=k, e=rng.choice([0, op["e"], rng.randint(0, 80)]), q=rng.choice(HOT), arg=rng.randint(0, 40)) for _ in range(5)]
        asks += after if rng.random() < 0.5 else rng.sample(after, 5)
    return dict(trees=[tree] * n, asks=[dict(a, t=0) for a in asks], threads=1, sched=1, mean=5, opcodes=False)


def gen(rng, tier):
    if rng.random() < 0.3:
        return probe(rng)
    pool = G.Pool(rng)
    threads = rng.choice([1, 1, 1, 2, 3])
    nt = rng.choice([1, 1, 2, 3]) if threads == 1 else threads
    trees = [gen_tree(rng, pool) for _ in range(nt)]
    if nt > 1 and rng.random() < 0.4:
        trees[1] = dict(trees[0], names=trees[1]["names"])  # the same code twice
    asks = []
    spots = [rng.randint(0, 80) for _ in range(rng.randint(1, 3))] if rng.random() < 0.6 else []
    for t in range(threads):
        mine = [gen_ask(rng, list(range(nt)) if threads == 1 else [t], pool, spots) for _ in range(rng.choice([6, 12, 25, 50]) // threads + 1)]
        if rng.random() < 0.25:  # one question about each element, then another one
            k = rng.choice(list(range(nt)) if threads == 1 else [t])
            off, n = rng.choice([0, 0, 20, 40]), rng.choice([15, 30, 50]) // threads
            for _ in range(2):
                q, d, arg = rng.choice(TYPED if rng.random() < 0.6 else QUERIES), [rng.choice(DERIVE) for _ in range(rng.choice([0, 0, 1]))], rng.randint(0, 40)
                mine += [dict(op="ask", k=k, e=off + i, q=q, d=d, arg=arg) for i in range(n)]
        if rng.random() < 0.5:  # the same questions again
            mine += [dict(a) for a in rng.sample(mine, min(len(mine), 6))]
        if threads > 1:
            for a in mine:
                a.pop("interrupt", None)
        asks += [dict(a, t=t) for a in mine]
    return dict(trees=trees, asks=asks, threads=threads, sched=rng.randint(0, 1 << 30), mean=rng.choice([2, 7, 30, 150]), opcodes=rng.random() < 0.2)


def directed(tier):
    """every question about every element, one question after the other, forwards and backwards, then other questions"""
    out = []
    rng = random.Random(4)
    for a in range(0, len(QUERIES), 12):
        for code in TYPICAL:
            for names in ([], ["num_macros", "num_macros2"]):
                order = list(HOT if a == 0 else QUERIES)
                if a == 0:
                    order += [q for q in QUERIES if q not in HOT]
                rng.shuffle(order) if tier != "quick" else None
                asks = []
                for q in order[a:a + 12]:
                    es = list(range(60)) if rng.random() < 0.5 else list(range(59, -1, -1))
                    asks += [dict(op="ask", k=0, e=e, q=q, arg=e, t=0) for e in es]
                asks += [dict(op="ask", k=0, e=e, q=q, arg=e, t=0) for e in range(60) for q in ("str_code", "cpp_scope_str", "hierarchy_overview")]
                out.append(dict(trees=[dict(code=code, name="a.h", names=names)], asks=asks, threads=1, sched=1, mean=5, opcodes=False))
    return out


# ------------------------------------------------------------------ inside the simulated process
def canon(x, depth=0):
    import srcmlcpp
    from srcmlcpp.cpp_types.scope.cpp_scope import CppScope, CppScopePart
    from srcmlcpp.srcml_wrapper import SrcmlWrapper

    if x is None or isinstance(x, (str, int, bool, float)):
        return x
    if isinstance(x, CppScope):
        return ["scope", x.str_cpp]
    if isinstance(x, CppScopePart):
        return ["part", str(x.scope_name), str(x.scope_type)]
    if isinstance(x, (list, tuple)):
        return ["list"] + [canon(v, depth + 1) for v in x]
    if isinstance(x, srcmlcpp.CppElement):
        out = ["element", type(x).__name__]
        for f in ("str_code", "cpp_scope_str", "str_code_location"):
            try:
                out.append(getattr(x, f)())
            except Exception as e:
                if str(e) == "simulated":
                    raise
                out.append(["exc", type(e).__name__, str(e)])
        return out
    if isinstance(x, SrcmlWrapper):
        return ["wrapper", x.tag(), x.str_code_verbatim()]
    if hasattr(x, "line") and hasattr(x, "column"):
        return ["position", x.line, x.column]
    if hasattr(x, "comment_end_of_line"):
        return ["comments", x.comment_on_previous_lines, x.comment_end_of_line, x.full_comment()]
    return [type(x).__name__, str(x)]


class Tree:
    def __init__(self, w, spec):
        import srcmlcpp

        o = G.make_options([])
        w.configure(o, "o", spec["names"])
        self.unit = srcmlcpp.code_to_cpp_unit(o.srcmlcpp_options, spec["code"], spec["name"] or None)
        self.elements = self.unit.all_cpp_elements_recursive()

    def element(self, i):
        return self.elements[i % len(self.elements)]

    def derive(self, el, how, arg):
        from srcmlcpp.cpp_types.scope.cpp_scope import CppScope
        from srcmlcpp.cpp_types.template.cpp_template_specialization import CppTemplateSpecialization

        if how == "copy":
            return copy.deepcopy(el)
        if how in ("qualified", "terse"):
            return getattr(el, f"with_{how}_types")()
        if how == "qualified_root":
            return el.with_qualified_types(CppScope([]))
        if how in ("qualified_in", "terse_in"):
            return getattr(el, f"with_{how[:-3]}_types")(self.element(arg).cpp_scope(arg % 2 == 0))
        if how == "spec":
            return el.with_specialized_template(CppTemplateSpecialization.from_type_str(["int", "std::string", "Ns::S"][arg % 3], ["", "T"][arg % 2]))
        raise HarnessError(how)

    def ask(self, op):
        el = self.element(op["e"])
        arg = op.get("arg", 0)
        for how in op.get("d", ()):
            el = self.derive(el, how, arg)
            if el is None:
                return "none"
        return canon(self.query(el, op["q"], arg))

    def query(self, el, q, arg):
        from codemanip import code_position  # noqa: F401
        from srcmlcpp.cpp_types.base.cpp_access_type import CppAccessType

        if q == "yaml":
            return str(el)
        if q == "tree":
            return [canon(c) for c in el.all_cpp_elements_recursive()] if hasattr(el, "all_cpp_elements_recursive") else el.hierarchy_overview()
        if q == "xml_bare":
            return el.str_xml(beautify=False)
        if q == "caret":
            return el.str_code_context_with_caret(arg % 4)
        if q == "warning":
            return el._warning_message_str("about this element")
        if q == "children":
            return [c.tag() for c in el.make_wrapped_children()]
        if q == "scope_self":
            return el.cpp_scope(True)
        if q == "scope_str_self":
            return el.cpp_scope_str(True)
        if q == "ancestors_self":
            return el.ancestors_list(True)
        if q in ("virtual_all", "virtual_own"):
            return el.virtual_methods(q == "virtual_all")
        if q == "public_members":
            return el.get_members(CppAccessType.public)
        other = self.element(arg)
        if q == "find":
            return self.unit.find_struct_or_class(other.extract_name_from_xml() or "S", el.cpp_scope())
        if q == "named":
            return self.unit.all_functions_with_name(["f", "go", "use", "get"][arg % 4])
        if q == "overloaded":
            return el.is_overloaded_method()
        if q == "qualify":
            return self.unit._scope_identifiers.qualify_cpp_code(["S s", "T t = T()", "E::a", "B::T", "Thing()", "Color_Red + Inner::Foo", "F_b"][arg % 7], el.cpp_scope(arg % 2 == 0))
        if q == "define":
            return self.unit.int_value_from_define_name(["SIZE_A", "SIZE_B", "Other_Value", "NONE"][arg % 4])
        v = getattr(el, q)
        return v() if callable(v) else v

    def mutate(self, op):
        """changes a copy: the tree itself shall not notice"""
        el = copy.deepcopy(self.element(op["e"]))
        how = op["how"]
        if how == 0 and hasattr(el, "cpp_element_comments"):
            el.cpp_element_comments.comment_end_of_line = "changed"
            el.cpp_element_comments.add_comment_on_previous_lines("changed")
        for name in (["function_name", "class_name", "decl_name", "enum_name", "ns_name"] if how in (0, 1) else []):
            if hasattr(el, name):
                setattr(el, name, "Changed")
        if how in (2, 3) and hasattr(el, "parameter_list"):
            for p in el.parameter_list.parameters:
                p.decl.decl_name += "_changed"
                p.decl.initial_value_code = "CHANGED"
                p.decl.cpp_type.typenames = ["Changed"]
            del el.parameter_list.parameters[how - 2:]
        if how == 4 and hasattr(el, "block") and hasattr(el.block, "block_children"):
            del el.block.block_children[::2]
        if how == 5:
            for a in ("specifiers", "modifiers", "typenames"):
                if isinstance(getattr(el, a, None), list):
                    getattr(el, a).append("changed")
        if how == 6 and hasattr(el, "cpp_decls"):
            for d in el.cpp_decls:
                d.decl_name = "changed"
                d.cpp_type.specifiers.append("changed")
                d.c_array_code = "[99]"
        if how == 7 and hasattr(el, "all_cpp_elements_recursive"):
            for c in el.all_cpp_elements_recursive():
                if hasattr(c, "function_name"):
                    c.function_name = "changed"
                if hasattr(c, "initial_value_code"):
                    c.initial_value_code = "changed"


class Asker(G.World):
    trees: list

    def act(self, op):
        k = op["op"]
        if k == "tree":
            self.trees[op["k"]] = None
            self.trees[op["k"]] = Tree(self, op["tree"])
            return None
        if k == "parse":
            t = Tree(self, op["tree"])
            return [t.unit.str_code(), t.unit.hierarchy_overview(), t.unit.str_code_verbatim()]
        if k == "mutate":
            t = self.trees[op["k"]]
            if t is None:
                return None
            t.mutate(op)
            return None
        if k == "ask":
            t = self.trees[op["k"]]
            if t is None:
                return "not parsed"
            return t.ask(op)
        return super().act(op)


def life_asks(ctx, plan, trees, asks, threaded):
    sched = None
    if threaded:
        sched = Sched(plan["sched"], plan["mean"], (os.path.join(core.SRC, "srcmlcpp"), os.path.join(core.SRC, "codemanip"), elementtree_file()), plan.get("schedule"), plan["opcodes"])
    env = Env(ctx, dict(seed=1), sched=sched)
    env.install()
    w = Asker(env, {}, sched)
    w.trees = [None] * len(plan["trees"])
    for k in trees:
        w.do(dict(op="tree", k=k, tree=plan["trees"][k], key="trees"))
    rep = {}
    if threaded:
        def job(ops, t):
            def f():
                for op in ops:
                    w.do(dict(op, key=f"t{t}"))

            return f

        r = sched.run([job([a for a in asks if a["t"] == t], t) for t in range(plan["threads"])])
        for t, x in enumerate(r):
            if x[0] != "ok":
                raise HarnessError(f"thread {t}: {x[1]!r} {x[2][-500:]}")
        rep = dict(deadlock=sched.deadlock, switches=sched.switches, schedule=sched.schedule, steps=sched.steps)
    else:
        for op in asks:
            w.do(dict(op, key=f"t{op['t']}"))
    rep.update(results=w.log, fired=dict(w.fired))
    return rep


def life_alone(ctx, plan, k, questions):
    """every question alone: of a tree parsed in this fresh process, in its own fork of it"""
    env = Env(ctx, dict(seed=1))
    env.install()
    w = Asker(env, {}, None)
    w.trees = [None] * len(plan["trees"])
    if k is not None:
        w.do(dict(op="tree", k=k, tree=plan["trees"][k], key="trees"))

    def one(ctx, q):
        w.do(dict(q, key="q"))
        return w.log["q"][0]

    out = []
    for q in questions:
        st, r = core.life(one, q)
        if st != "ok":
            return [st, out]
        out.append(r)
    return ["ok", out]


def life_backwards(ctx, plan, questions):
    """one process is asked every question once, in the opposite order"""
    env = Env(ctx, dict(seed=1))
    env.install()
    w = Asker(env, {}, None)
    w.trees = [None] * len(plan["trees"])
    for k in range(len(plan["trees"])):
        w.do(dict(op="tree", k=k, tree=plan["trees"][k], key="trees"))
    for q in questions:
        w.do(dict(q, key="q"))
    return w.log.get("q", [])


def plain(op) -> dict:
    return {k: v for k, v in op.items() if k not in ("interrupt", "t")}


def about(op) -> str:
    return "parse" if op["op"] == "parse" else f"{op['q']} of element {op['e']} of tree {op['k']}" + (f" via {op['d']}" if op.get("d") else "")


def ask_alone(plan, res, questions):
    """-> the answer to each question when it is the only one"""
    by_tree: dict = {}
    for d, q in questions.items():
        by_tree.setdefault(q["k"] if q["op"] == "ask" else None, {})[d] = q
    cache: dict = {}
    for k, qs in by_tree.items():
        st, twin = core.life(life_alone, plan, k, list(qs.values()))
        res.lives += 1 + len(qs)
        if st != "ok" or twin[0] != "ok":
            res.violate("hang", f"a question alone was not answered ({st}, {twin and twin[0]})")
            return None
        cache.update(zip(qs, twin[1]))
    return cache


def run(plan, res):
    plan = dict(plan) if "_schedule" not in plan else plan
    n = len(plan["trees"])
    threaded = plan["threads"] > 1
    for a in plan["asks"]:
        if a["op"] != "parse" and a["k"] >= n:
            raise HarnessError("no such tree")
        if a["t"] >= plan["threads"]:
            raise HarnessError("no such thread")
        if threaded and a["op"] != "parse" and a["k"] != a["t"]:
            raise HarnessError("a tree shared by threads")
    st, rep = core.life(life_asks, plan, range(n), plan["asks"], threaded)
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the questions were not all answered ({st})")
        return
    if threaded:
        res.probes["threads"] += 1
        res.interleavings += rep["switches"]
        res.states.add(digest(rep["schedule"]))
        res.faults["thread-switch"] += rep["switches"]
        if rep["deadlock"]:
            res.violate("deadlock", "the threads wait for one another for ever")
            return
    res.faults.update(rep["fired"])
    questions: dict = {}
    for op in plan["asks"]:
        if op["op"] != "mutate":
            q = plain(op)
            questions.setdefault(digest(q), q)
    # the same questions in the opposite order, without interrupts and modifications
    st, twin = core.life(life_backwards, plan, list(questions.values())[::-1])
    res.lives += 1
    if st != "ok":
        res.violate("hang", f"the questions in the opposite order were not all answered ({st})")
        return
    backwards = dict(zip(list(questions)[::-1], twin))
    # some of them alone
    some = random.Random(plan["sched"]).sample(sorted(questions), min(len(questions), plan.get("alone", 10)))
    cache = ask_alone(plan, res, {d: questions[d] for d in some})
    if cache is None:
        return
    nasked = 0
    seen = set()
    for t in range(plan["threads"]):
        asks = [a for a in plan["asks"] if a["t"] == t]
        got = rep["results"].get(f"t{t}", [])
        if len(got) != len(asks):
            raise HarnessError("lost answers")
        for i, (op, g) in enumerate(zip(asks, got)):
            res.steps += 1
            if op["op"] == "mutate":
                if g[1][0] == "ok":
                    res.probes["copy-modified"] += 1
                continue
            if "interrupt" in op:
                res.probes["interrupted"] += g[1][0] == "exc"
                continue
            if op["op"] == "parse":
                res.probes["parse-between"] += 1
            key = digest(plain(op))
            if key in seen:
                res.probes["repeated"] += 1
            seen.add(key)
            other = backwards[key]
            if key not in cache and (g[1] != other[1] or g[2] != other[2]):
                more = ask_alone(plan, res, {key: questions[key]})
                if more is None:
                    return
                cache.update(more)
            want = cache.get(key, other)
            if want[1] != other[1] or want[2] != other[2]:
                res.violate("impure", f"{about(op)} after the later questions:{G.diff(list(other[1:3]), list(want[1:3]))} ({str(other[1])[:300]})")
                return
            nasked += 1
            res.probes["asked"] += 1
            if op.get("d"):
                res.probes["derived"] += 1
            if isinstance(g[1][1], list) and g[1][1][:1] == ["list"]:
                res.probes["list"] += 1
            if g[1] != want[1] or g[2] != want[2]:
                res.violate("impure", f"{about(op)}, question {i} of thread {t}:{G.diff(list(g[1:3]), list(want[1:3]))} ({str(g[1])[:300]})")
                return
    res.nontrivial = nasked >= 5
    res.states.add(digest([(a.get("q"), a["op"], a.get("d")) for a in plan["asks"]]))
    res.log.append(("asked", nasked, digest(sorted(rep["results"].items()))))
    if threaded:
        plan["_schedule"] = rep["schedule"]
        res.log.append(("threads", rep["switches"], digest(rep["schedule"])))


def explicit(plan):
    from sim.driver import run_plan

    if plan["threads"] < 2:
        return None
    p = dict(plan, _schedule=None)
    run_plan(sys.modules[__name__], p)
    if not p.get("_schedule") or len(p["_schedule"]) > 50000:
        return None
    q = {k: v for k, v in p.items() if k != "_schedule"}
    q["schedule"] = p["_schedule"]
    return q
