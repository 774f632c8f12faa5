"""Generators of C++ headers and of option sets. Options are described by lists of named settings (JSON), so that the
very same options can be rebuilt in any process."""
from __future__ import annotations
import json
import os
import re

NONASCII = ["é", "日本語", "ß", "λ→∞", "Ω", "naïve", "✓", "\u00a0", "Ж"]

# names on purpose confusable: suffixes / prefixes of each other, common to several headers
NS = ["Abc", "XAbc", "YXAbc", "Lib", "MyLib", "Inner", "Outer", "A", "AA", "Detail"]


def comment(rng, rich=True) -> str:
    words = ["Computes", "the value", "of x", "see Foo()", "(inches)", "note:", "TODO", "a+b", "`code`", "ImVec2(0, 1)", "std::vector<int>"]
    s = " ".join(rng.sample(words, rng.randint(1, 4)))
    if rich and rng.random() < 0.25:
        s += " " + rng.choice(NONASCII)
    return s


def block(rng, u: str, kinds=None) -> str:
    """One declaration block; u makes its names unique"""
    kind = rng.choice(kinds or KINDS)
    return kind(rng, u)


def k_fn(rng, u):
    d = rng.choice(["int a", "float x = 1.5f", "const std::string& s = \"q\"", "std::vector<int> v = {}", "bool b = true, double d = 2.0",
                    "const char* text = NULL", "unsigned int n = 3, long long m = 4"])
    r = rng.choice(["void", "int", "float", "std::string", "std::vector<float>", "bool", "const char*"])
    c = f"// {comment(rng)}\n" if rng.random() < 0.6 else ""
    eol = f" // {comment(rng)}" if rng.random() < 0.3 else ""
    return f"{c}{r} Func{u}({d});{eol}\n"


def k_overload(rng, u):
    return f"int Over{u}(int a);\nint Over{u}(float a, int b = 2);\n" + (f"int Over{u}(const std::string& s);\n" if rng.random() < 0.5 else "")


def k_struct(rng, u):
    body = []
    for i in range(rng.randint(1, 4)):
        body.append(rng.choice([f"int m{i} = {i};", f"float f{i};", f"std::string s{i} = \"v\"; // {comment(rng)}", f"std::vector<int> v{i};",
                                f"int arr{i}[3];", f"bool flag{i} = false;"]))
    if rng.random() < 0.6:
        body.append(f"int Method{u}(int a = 1, float b = 2.f) const;")
    if rng.random() < 0.3:
        body.append(f"static int Count{u}();")
    if rng.random() < 0.3:
        body.append(f"St{u}(int w);")
    inner = "\n".join("    " + b for b in body)
    doc = f"// {comment(rng)}\n" if rng.random() < 0.6 else ""
    return f"{doc}struct St{u}\n{{\n{inner}\n}};\n"


def k_class(rng, u):
    virt = rng.random() < 0.6
    prot = rng.random() < 0.6
    s = f"class Cl{u}\n{{\npublic:\n    Cl{u}();\n    virtual ~Cl{u}() = default;\n    int Get{u}() const;\n"
    if virt:
        s += f"    virtual int Virt{u}(int x, const std::string& y) {{ return 0; }}\n"
        if rng.random() < 0.4:
            s += f"    virtual void Pure{u}() = 0;\n"
    if rng.random() < 0.4:
        s += f"    int operator+(const Cl{u}& o) const;\n"
    if prot:
        s += f"protected:\n    int Prot{u}(float z);\n"
    s += f"private:\n    int _p{u};\n}};\n"
    return s


def k_derived(rng, u):
    return (f"class Base{u}\n{{\npublic:\n    virtual int Go{u}(int x);\nprotected:\n    virtual void Hid{u}();\n}};\n"
            f"class Der{u} : public Base{u}\n{{\npublic:\n    int Go{u}(int x) override;\n    double Extra{u}(double q = 1.0);\n}};\n")


def k_enum(rng, u):
    if rng.random() < 0.5:
        return f"enum class En{u}\n{{\n    A{u} = 0,  // {comment(rng)}\n    B{u},\n    C{u} = 4\n}};\nvoid UseEn{u}(En{u} e = En{u}::B{u});\n"
    return f"enum Eo{u}\n{{\n    Eo{u}_First = 0,\n    Eo{u}_Second,\n    Eo{u}_Private_,\n    Eo{u}_COUNT\n}};\nvoid UseEo{u}(Eo{u} e = Eo{u}_Second);\n"


def k_ns(rng, u):
    n = rng.choice(NS)
    sub = rng.choice([k for k in KINDS if k is not k_ns])
    inner = sub(rng, u + "n")
    if rng.random() < 0.4:
        m = rng.choice(NS)
        inner += f"namespace {m}\n{{\n" + rng.choice([k_fn, k_struct, k_enum])(rng, u + "m") + "}\n"
    extra = ""
    if rng.random() < 0.3:
        extra = f"{n}::Undeclared{u} UseNs{u}(int a);\n"
    return f"namespace {n}\n{{\n{inner}}}\n{extra}"


def k_ns_xref(rng, u):
    """types qualified by namespaces that are suffixes of one another"""
    a, b = rng.sample(NS, 2)
    return (f"namespace {a}\n{{\n    struct T{u} {{ int a = 1; }};\n    void F{u}(T{u} t = T{u}());\n}}\n"
            f"namespace {b}\n{{\n    void G{u}({a}::T{u} t = {a}::T{u}(), const {a}::T{u}& r = {a}::T{u}());\n"
            f"    {a}::{b}::Q{u} H{u}({b}::{a}::R{u} w);\n}}\n"
            + (f"{a}::T{u} J{u}({b}::T{u} x = {b}::T{u}(), {a}::T{u} y = {a}::T{u}());\n" if rng.random() < 0.6 else ""))


BOXABLE = ["int", "float", "double", "bool", "unsigned int", "std::string", "long long", "long", "size_t", "ssize_t", "int8_t", "uint8_t", "int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "long double", "signed int", "signed long"]


def k_boxed(rng, u):
    ts = rng.sample(BOXABLE, rng.randint(1, 4))
    ps = ", ".join(f"{t}& p{i}" if rng.random() < 0.5 else f"{t}* p{i}" for i, t in enumerate(ts))
    return f"void Box{u}({ps});\n"


def k_carray(rng, u):
    return rng.choice([f"int Vec{u}(int a, float b);\nnamespace Abc\n{{\n    double VecN{u}(double x, double y = 1.0);\n}}\n", f"St{u}R& Ref{u}(int a);\nSt{u}R* Ptr{u}();\n", f"struct Nx{u} {{ int w[NX]; float v[4]; }};\n",
                       f"void ArrD{u}(const double v[4], const int* p = NULL, float* q = nullptr);\n", f"void ArrC{u}(const int v[2]);\n", f"void ArrM{u}(int v[3]);\n", f"void Str{u}(const char * const items[], int items_count);\n",
                       f"void Buf{u}(const uint8_t* values, size_t count);\n", f"void Fmt{u}(const char* fmt, ...);\n"])


def k_template(rng, u):
    if rng.random() < 0.5:
        return f"template<typename T>\nT Tpl{u}(T a, const std::vector<T>& b);\n"
    return f"template<class T>\nstruct TplC{u}\n{{\n    T value;\n    std::vector<T> values;\n    void set(T v);\n}};\n"


def k_warn(rng, u):
    """constructs which litgen or srcmlcpp warns about or ignores"""
    return rng.choice([f"int Warn{u}(int (*cb)(int, float), int z);\n", f"union Un{u} {{ int a; float b; }};\n",
                       f"extern template class Foo{u}<int>;\n", f"auto Auto{u}(int a) -> int;\n", f"int gArr{u}[2][3];\n",
                       f"template<typename T> T Unspec{u}(T a);\n", f"struct W{u} {{ int a[N{u}]; int b; }};\n"])


def k_macro(rng, u):
    return rng.choice([f"#define MACRO_{u} {rng.randint(0, 99)}\n", f"#ifdef OPT_{u}\nvoid InOpt{u}();\n#endif\n", f"extern int gGlobal{u};\n"])


def k_adapt(rng, u):
    return f"struct Elem{u} {{ int x = 0; }};\nvoid Mut{u}(std::vector<int> v = {{1, 2}}, Elem{u} e = Elem{u}());\n"


def k_region(rng, u):
    return f"// {'=' * 20}\n// {comment(rng)}\n\n/* block {comment(rng)}\n   second line */\nint Doc{u}();\n\n"


def k_tangled(rng, u):
    """scopes whose members bear the name of the scope, or names of the same length, and mention one another"""
    ws = rng.sample(["foo", "Bar", "baz", "Qux", "foe", "Foo", "bar"], 4) + [f"t{u}"]
    n = rng.choice(ws[:4])
    out = []
    for w in rng.sample(ws, rng.randint(2, 4)):
        v, x = rng.choice(ws), rng.choice(ws)
        out.append(rng.choice([f"void {w}({v} a = {v}());\n", f"struct {w} {{ int m = 1; struct In {{ {v}* p; {x} q = {x}(); }}; {v} get({x} o = {x}()); }};\n", f"enum class {w} {{ {v}, {x}_ }};\n",
                               f"struct {w} {{ enum {v}_ {{ {v}_a, {v}_b }}; struct {w}2 {{ {v}_ e = {v}_a; {w}2* o; }}; struct {w} {{ {w}2 z = {w}2(); {v}_ k(); }}; }};\n"]))
    return f"namespace {n}\n{{\n{''.join(out)}}}\n" if rng.random() < 0.8 else "".join(out)


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus.json"), encoding="utf-8") as _f:
    CORPUS = json.load(_f)  # declarations of all sorts, from the documentation and examples of litgen


def k_corpus(rng, u):
    s = rng.choice(CORPUS)
    if rng.random() < 0.3:  # the same declarations under other names
        for n in ("Foo", "foo", "Root", "Inner"):
            s = re.sub(rf"\b{n}\b", n + u, s)
    return s


def k_buffers(rng, u):
    """C buffers of each kind, with sizes and strides"""
    t = rng.choice(["float", "uint8_t", "double", "int", "int64_t", "uint16_t", "long double", "void", "T", "NumericType", "Foo"])
    c = lambda: rng.choice(["const ", ""])  # noqa: E731
    n = rng.choice(["count", "n", "total_count", "buf_size", "size"])
    st = rng.choice(["int", "size_t"])
    stride = rng.choice(["", f", int stride = sizeof({'float' if t == 'void' else t})", f", size_t stride = sizeof({'float' if t == 'void' else t})"])
    shape = rng.randint(0, 3)
    ps = [f"{c()}{t}* xs, {st} {n}", f"{c()}{t}* xs, {c()}{t}* ys, {st} {n}", f"{c()}{t}* xs, {st} {n}, {c()}float* zs, int nz_count", f"const char* label, {c()}{t} *v, {st} {n}, bool flag = true"][shape] + stride
    if rng.random() < 0.2:
        ps += ", int* other = nullptr"
    r = rng.choice(["void", "int", "double"])
    tpl = f"template<typename {t}> " if t in ("T", "NumericType") else ""
    f = f"{tpl}{r} Buf{u}({ps});\n"
    if rng.random() < 0.3:
        f = f"struct Bst{u}\n{{\n    {f}}};\n"
    return (f"// {comment(rng)}\n" if rng.random() < 0.3 else "") + f


def k_modif(rng, u):
    """modifiable immutables in every position"""
    t = lambda: rng.choice(["int", "bool", "float", "std::string", "double", "unsigned int"])  # noqa: E731
    ps = [rng.choice([f"{t()}* p{i}", f"{t()}& p{i}", f"{t()}* p{i} = nullptr", f"{t()}* p{i} = NULL", f"{t()} p{i}[{rng.randint(2, 4)}]", f"const {t()} p{i}[2]", f"const char* p{i}", f"const char* p{i} = NULL", f"const char* p{i} = nullptr",
                      f"const {t()}& p{i}", f"const std::optional<int>& p{i} = std::nullopt"]) for i in range(rng.randint(1, 4))]
    ps.sort(key=lambda x: "=" in x)
    r = rng.choice(["void", "bool", "int", "const char*", "std::vector<int>", "Foo"])
    f = f"{r} {rng.choice(['Box', 'Mod', 'Ref'])}{u}({', '.join(ps)}){rng.choice([';', ' const;'])}\n"
    return f"struct Mst{u}\n{{\n    {rng.choice(['', 'static ', 'virtual '])}{f}    Mst{u}({', '.join(ps)});\n}};\n" if rng.random() < 0.35 else f.replace(" const;", ";")


def k_operators(rng, u):
    """operators, conversions and special members"""
    ops = rng.sample(["+", "-", "*", "/", "%", "==", "!=", "<", "<=", "<=>", "+=", "-=", "[]", "()", "++", "=", "&", "|", "<<", "&&", "!", "->", "bool", "int", "ImVec4"], rng.randint(1, 5))
    out = []
    for o in ops:
        if o in ("bool", "int", "ImVec4"):
            out.append(f"operator {o}() const;")
        elif o in ("!", "->") or (o in "+-" and rng.random() < 0.4):
            out.append(f"Opc{u} operator{o}() const;")
        elif o in ("[]", "()"):
            out.append(f"int operator{o}(int idx){rng.choice(['', ' const'])};")
        else:
            out.append(f"{rng.choice([f'Opc{u}', 'bool', f'Opc{u}&', 'int'])} operator{o}({rng.choice([f'const Opc{u}& o', 'int o', f'Opc{u} o'])}){rng.choice(['', ' const'])};")
    sp = rng.sample([f"Opc{u}() = default;", f"Opc{u}(const Opc{u}&) = delete;", f"Opc{u}(Opc{u}&& o) noexcept = default;", f"explicit Opc{u}(int v) noexcept;", f"Opc{u}(const Opc{u}& other);", f"~Opc{u}();", f"virtual ~Opc{u}() = default;"], rng.randint(0, 3))
    return f"class Opc{u}{rng.choice(['', ' final'])}\n{{\npublic:\n" + "".join(f"    {x}{rng.choice(['', ' // ' + comment(rng)])}\n" for x in sp + out) + rng.choice(["", f"private:\n    ~Opc{u}();\n", "protected:\n    int hidden();\n"]) + "};\n"


def k_odd(rng, u):
    """declarations that are seldom written, and comments at odd places"""
    return rng.choice([
        f'extern "C" {{\nint ExtC{u}(int a);\nstruct ExtS{u} {{ int a; }};\n}}\n', f"enum class Sized{u} : uint8_t\n// comment of the enum\n{{\n    A = 1 << 2, /* c-style */\n    B = A | 1, C = 'x'\n}};\n", f"enum {{ Anon{u}_A, Anon{u}_B = 4 }};\n",
        f"int a{u}, *b{u}, c{u} = 3;\n", f"struct Decl{u};\nclass DeclC{u};\nenum class DeclE{u};\n", f"typedef int MyInt{u};\nusing MyVec{u} = std::vector<int>;\nvoid UseIt{u}(MyInt{u} a, MyVec{u} v);\n",
        f"void Fun{u}(std::function<void(int a, float b)> cb, std::function<int()> cb2 = {{}}, void (*fp)(int) = nullptr);\n", f"auto Trail{u}(int a) -> std::vector<int>; // trailing\n", f"void Rv{u}(std::string&& s, int** pp, const int* const* q);\n",
        f"struct Bits{u} {{ int a : 3; unsigned b : 5; mutable int c; volatile int d; static constexpr int e = 3; inline static int f = 2; }};\n", f"int TypeIgnore{u}(int a); // type: ignore\nint TypeIgnore{u}(float a); // type: ignore // more\n",
        f"struct Rvp{u} {{ int& Get(); // return_value_policy::reference\n    int* Ptr(); // return_value_policy::copy py::keep_alive<0, 1>()\n}};\n", f"#define FN_{u}(x, y) (x + y)\n#define MACRO_H{u} 0x1F // hex\n#define MACRO_O{u} 017\n#define MACRO_F{u} 1.5f\n#define MACRO_S{u} \"s\"\n#define MACRO_E{u}\n#define MACRO_A{u} MACRO_H{u}\n",
        f"#if defined(OPT_A{u}) && !defined(OPT_B{u})\nvoid InA{u}();\n#elif OPT_C\nvoid InC{u}();\n#else\nvoid InE{u}();\n#endif\n", f"#ifndef FILE{u}_H\n#define FILE{u}_H\nvoid Guarded{u}();\n#endif\n", f"template<typename T, int N> struct Two{u} {{ T v[N]; }};\ntemplate<> struct Two{u}<int, 3> {{ int z; }};\ntemplate<typename T = int> T Dflt{u}(T a = T());\n",
        f"struct Outer{u} {{ friend class Fr{u}; friend void fr(int); using Ty = int; typedef float Fl; Ty a; struct {{ int anon; }}; union {{ int ua; float ub; }}; Outer{u}* self = this; }};\n", f"void Dflts{u}(std::vector<TplC{u}<int>> v = {{}}, TplC{u}<int> t = TplC{u}<int>(), int x = {{}}, float y = 1.f / 3.f, char c = 'a', const char* z = \"q\\\"q\");\n",
        f"// \"quoted\" \\ backslash {comment(rng)} \"\"\"\nvoid Quoted{u}(int a /* inline comment */, // first\n    float b // second\n);\n", f"[[nodiscard]] inline static constexpr int Attr{u}(int a) noexcept(true) {{ return a; }}\n", f"struct Api{u} {{ MY_API Api{u}(int a); Api{u}(const Api{u}& o); MY_API int Pub(int a); int Priv(int a); }};\nMY_API int ApiFn{u}();\nint NonApi{u}();\n",
        f"struct MY_API Exp{u} : public Foo, protected Bar, std::vector<int>\n{{\n    int a;\n}};\n", f"struct Iter{u} {{ int* begin(); int* end(); const int* begin() const; size_t size() const; int operator[](size_t i); }};\n", f"const char* const gNames{u}[] = {{\"a\", \"b\"}};\nstatic const double gPi{u} = 3.14; // pi\ninline constexpr int gC{u} {{3}};\n",
        f"namespace A::B{u}\n{{\n    int Nested{u}(int a = 1);\n}}\nnamespace {{ int Anonymous{u}(); }}\ninline namespace v1 {{ void Inl{u}(); }}\nusing namespace A;\n", f"void Unnamed{u}(int, float = 1.f, std::string s = {{}});\n", f"struct Cmt{u} // after the name\n{{ // after the brace\n    int a; // eol a\n    // before b\n    int b;\n\n    // alone\n\n    int c /* c-style */;\n}}; // after the struct\n",
        f"class Virt{u}\n{{\npublic:\n    virtual std::pair<int, float> Pair(int a, std::map<std::string, int> m = {{}}) const noexcept = 0;\n    virtual void Ref(Foo& f, const Foo* g = nullptr);\n    virtual int operator()(int a);\nprotected:\n    virtual bool Prot(int a) const {{ return true; }}\n    int data;\n    Virt{u}(int a);\n}};\nclass Vder{u} final : public Virt{u} {{ public: void Ref(Foo& f, const Foo* g) override; bool Prot(int a) const override; }};\n",
        f"struct Sml{u} {{ std::shared_ptr<Foo> sp; std::unique_ptr<Foo> up; Foo* raw = nullptr; const Foo& ref; std::array<int, 3> arr; int grid[2][3]; char name[32]; Foo objs[2]; const int ci = 3; }};\nstd::shared_ptr<Foo> MakeSp{u}();\nvoid TakeUp{u}(std::unique_ptr<Foo>& u);\n", f"void Va{u}(const char* fmt, ...);\nvoid Kw{u}(py::args args, const py::kwargs& kwargs);\nint Lam{u}(int lambda, float def, bool class_, int None, int in, int self);\n",
    ])


KINDS = [k_fn, k_overload, k_struct, k_class, k_derived, k_enum, k_ns, k_ns_xref, k_boxed, k_carray, k_template, k_macro, k_adapt, k_region, k_tangled, k_corpus, k_buffers, k_modif, k_operators, k_odd]
SMALL = [k_fn, k_overload, k_struct, k_enum, k_boxed, k_fn]


def header(rng, tag: str, nmax=4, kinds=None, warn=0.0) -> str:
    n = rng.randint(1, nmax)
    parts = []
    for i in range(n):
        if rng.random() < warn:
            parts.append(k_warn(rng, f"{tag}w{i}"))
        parts.append(block(rng, f"{tag}{i}", kinds))
        if rng.random() < 0.5:
            parts.append("\n")
    return "".join(parts)


# ------------------------------------------------------------------ options
def _cv():
    from litgen.internal import cpp_to_python

    return cpp_to_python.opencv_replacements()


def _ignore(o):
    from srcmlcpp.scrml_warning_settings import WarningType

    o.srcmlcpp_options.ignored_warnings += [WarningType.LitgenIgnoreElement, WarningType.LitgenClassMemberNonNumericCStyleArray]


def _rename_a(adapted_function):
    """an adapter of the user: parameters named `a` become `a_user`"""
    import copy

    from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter

    if not any(p.decl.decl_name == "a" for p in adapted_function.cpp_adapted_function.parameter_list.parameters):
        return None
    la = LambdaAdapter()
    la.lambda_name = adapted_function.cpp_adapted_function.function_name + "_user"
    la.new_function_infos = copy.deepcopy(adapted_function.cpp_adapted_function)
    for p in la.new_function_infos.parameter_list.parameters:
        if p.decl.decl_name == "a":
            p.decl.decl_name = "a_user"
            la.adapted_cpp_parameter_list.append("a_user")
        else:
            la.adapted_cpp_parameter_list.append(p.decl.decl_name)
    return la


def _repl(o, x):
    """one more replacement of every kind"""
    o.type_replacements.add_last_replacement(r"\bdouble\b", "Real" + x)
    o.value_replacements.add_last_replacement(r"\b1\b", "One" + x)
    o.function_names_replacements.add_last_replacement("Use|Func|func", "Fn" + x)
    o.var_names_replacements.add_last_replacement("Value|value", "Val" + x)
    o.namespace_names_replacements.add_last_replacement("Lib|Inner|lib", "Nsp" + x)
    o.macro_name_replacements.add_last_replacement("MACRO", "MCR" + x)
    o.comments_replacements.add_last_replacement("Doc|TODO", "Note" + x)
    o.fn_params_type_replacements.add_last_replacement(r"\bbool\b", "Flag" + x)


OPTION_OPS = {
    "nanobind": lambda o: o.use_nanobind(),
    "boxed_all": lambda o: setattr(o, "fn_params_replace_modifiable_immutable_by_boxed__regex", r".*"),
    "virtual_all": lambda o: setattr(o, "class_override_virtual_methods_in_python__regex", r".*"),
    "protected_all": lambda o: setattr(o, "class_expose_protected_methods__regex", r".*"),
    "no_snake": lambda o: setattr(o, "python_convert_to_snake_case", False),
    "indent2": lambda o: setattr(o, "cpp_indent_size", 2),
    "tabs": lambda o: setattr(o, "cpp_indent_with_tabs", True),
    "pytabs": lambda o: setattr(o, "python_ident_with_tabs", True),
    "no_comments": lambda o: setattr(o, "comments_exclude", True),
    "no_layout": lambda o: setattr(o, "python_reproduce_cpp_layout", False),
    "tpl_fn": lambda o: o.fn_template_options.add_specialization("^Tpl", ["int", "double"], add_suffix_to_function_name=True),
    "tpl_class": lambda o: o.class_template_options.add_specialization("^TplC", ["int", "std::string"], []),
    "tpl_class_b": lambda o: o.class_template_options.add_specialization("^TplC$", ["int", "double"], ["Also=int"]),
    "tpl_fn_b": lambda o: o.fn_template_options.add_specialization("^Tpl", ["float", "bool"], add_suffix_to_function_name=True),
    "tpl_ignore": lambda o: (o.fn_template_options.add_ignore(".*"), o.class_template_options.add_ignore(".*")),
    "deep_copy": lambda o: (setattr(o, "class_deep_copy__regex", ".*"), setattr(o, "class_copy__regex", ".*")),
    "copy_info": lambda o: setattr(o, "class_copy__regex", ".*") or setattr(o, "class_copy_add_info_in_stub", True),
    "dynamic": lambda o: setattr(o, "class_dynamic_attributes__regex", ".*"),
    "arith": lambda o: setattr(o, "enum_make_arithmetic__regex", ""),
    "exclude_fn": lambda o: setattr(o, "fn_exclude_by_name__regex", "^Over|0$"),
    "exclude_fn_b": lambda o: setattr(o, "fn_exclude_by_name__regex", "^Func|1$"),
    "exclude_ns": lambda o: setattr(o, "namespace_exclude__regex", "^Inner$"),
    "exclude_ns_b": lambda o: setattr(o, "namespace_exclude__regex", "^Abc$"),
    "root_ns_b": lambda o: setattr(o, "namespaces_root", ["Inner", "MyLib"]),
    "root_ns": lambda o: setattr(o, "namespaces_root", ["Abc", "Lib"]),
    "class_ctor": lambda o: setattr(o, "class_create_default_named_ctor__regex", ".*"),
    "mutable_default": lambda o: setattr(o, "fn_params_adapt_mutable_param_with_default_value__regex", ".*"),
    "mutable_ctor": lambda o: setattr(o, "fn_params_adapt_mutable_param_with_default_value__to_autogenerated_named_ctor", True),
    "out_return": lambda o: setattr(o, "fn_params_output_modifiable_immutable_to_return__regex", "^Box"),
    "buffer": lambda o: setattr(o, "fn_params_replace_buffer_by_array__regex", ".*"),
    "force_overload": lambda o: setattr(o, "fn_force_overload__regex", ".*"),
    "force_lambda": lambda o: setattr(o, "fn_force_lambda__regex", "^Func"),
    "gil": lambda o: setattr(o, "fn_add_gil_scoped_release_guard__regex", "^Func"),
    "macros": lambda o: setattr(o, "macro_define_include_by_name__regex", "^MACRO_"),
    "globals": lambda o: setattr(o, "globals_vars_include_by_name__regex", "^g"),
    "type_repl": lambda o: o.type_replacements.add_replacements([(r"\bfloat\b", "MyFloat")]),
    "type_repl_b": lambda o: o.type_replacements.add_replacements([(r"\bfloat\b", "YourFloat")]),
    "repl_a": lambda o: _repl(o, "_a"),
    "repl_b": lambda o: _repl(o, "_b"),
    "fn_repl": lambda o: o.function_names_replacements.add_replacements([(r"Func", "Fonction")]),
    "var_repl": lambda o: o.var_names_replacements.add_replacements([(r"^a$", "alpha")]),
    "ns_repl": lambda o: o.namespace_names_replacements.add_replacements([(r"Abc", "Zed")]),
    "val_repl": lambda o: o.value_replacements.add_replacements([(r"\b2\b", "22")]),
    "comment_repl": lambda o: o.comments_replacements.add_replacements([(r"TODO", "DONE")]),
    "custom_main": lambda o: o.custom_bindings.add_custom_bindings_to_main_module("def main_custom() -> int: ...", 'LG_MODULE.def("main_custom", [](){ return 1; });'),
    "custom_main_b": lambda o: o.custom_bindings.add_custom_bindings_to_main_module("def main_custom_b() -> int: ...", 'LG_MODULE.def("main_custom_b", [](){ return 1; });'),
    "custom_main_stub": lambda o: o.custom_bindings.add_custom_bindings_to_main_module("def main_custom_stub() -> int: ...", None),
    "custom_main_pydef": lambda o: o.custom_bindings.add_custom_bindings_to_main_module(None, 'LG_MODULE.def("main_custom_pydef", [](){ return 1; });'),
    "custom_ns": lambda o: o.custom_bindings.add_custom_bindings_to_submodule("Abc", "@staticmethod\ndef ns_custom() -> int: ...", 'LG_SUBMODULE.def("ns_custom", [](){ return 2; });'),
    "custom_lib": lambda o: o.custom_bindings.add_custom_bindings_to_submodule("Lib", "@staticmethod\ndef lib_custom() -> int: ...", 'LG_SUBMODULE.def("lib_custom", [](){ return 2; });'),
    "progress": lambda o: setattr(o.srcmlcpp_options, "flag_show_progress", True),
    "quiet": lambda o: setattr(o.srcmlcpp_options, "flag_quiet", True),
    "no_empty_lines": lambda o: setattr(o.srcmlcpp_options, "preserve_empty_lines", False),
    "num_macros": lambda o: setattr(o.srcmlcpp_options, "named_number_macros", {"NX": 3}),
    "num_macros_b": lambda o: setattr(o.srcmlcpp_options, "named_number_macros", {"NX": 5}),
    "macros_b": lambda o: setattr(o, "macro_define_include_by_name__regex", "_MAX$"),
    "ex_class_b": lambda o: setattr(o, "class_exclude_by_name__regex", "^Thing$|1$"),
    "boxed_some": lambda o: setattr(o, "fn_params_replace_modifiable_immutable_by_boxed__regex", r"2$|[A-M]"),
    "ignore_warn_b": lambda o: o.srcmlcpp_options.ignored_warning_parts.append("emplate"),
    "regions_opt_b": lambda o: setattr(o.srcmlcpp_options, "header_filter_acceptable__regex", "MACRO_.*"),
    "enum_flag_b": lambda o: setattr(o, "enum_make_flag__regex", "Kind|Ec"),
    "member_ro_b": lambda o: setattr(o, "member_readonly_by_name__regex", "^x$|Kind$"),
    "custom_class_b": lambda o: (o.custom_bindings.add_custom_bindings_to_class("Thing", "def custom_thing_b(self) -> int: ...", 'LG_CLASS.def("custom_thing_b", [](Thing& self) { return 1; });'),
                                 o.custom_bindings.add_custom_bindings_to_class("Foo", "def custom_foo_b(self) -> int: ...", 'LG_CLASS.def("custom_foo_b", [](Foo& self) { return 1; });'), o.custom_bindings.add_custom_bindings_to_class("Abc::Node", "def custom_node_b(self) -> int: ...", None)),
    "api_prefix": lambda o: (setattr(o.srcmlcpp_options, "functions_api_prefixes", "MY_API"), setattr(o, "fn_exclude_non_api", False)),
    "held_shared": lambda o: setattr(o, "class_held_as_shared__regex", ".*"),
    "iterable": lambda o: o.class_iterables_infos.add_iterable_class("^St", "int"),
    "member_ro": lambda o: setattr(o, "member_readonly_by_name__regex", "^m0$|Value$"),
    "member_ex": lambda o: setattr(o, "member_exclude_by_name_and_class__regex", {"Thing": "inner", "Node": "^Nest", "Elemk0": "x"}),
    "ret_ref": lambda o: setattr(o, "fn_return_force_policy_reference_for_pointers__regex", ".*"),
    "vectorize": lambda o: (setattr(o, "fn_namespace_vectorize__regex", ".*"), setattr(o, "fn_vectorize__regex", "^Func|^Vec"), setattr(o, "fn_vectorize_suffix", "_v")),
    "loc": lambda o: setattr(o, "original_location_flag_show", True),
    "loc1": lambda o: (setattr(o, "original_location_flag_show", True), setattr(o, "original_location_nb_parent_folders", 1)),
    "parents2": lambda o: setattr(o, "original_location_nb_parent_folders", 2),
    "fullpath": lambda o: setattr(o, "original_location_nb_parent_folders", -1),
    "sig": lambda o: setattr(o, "original_signature_flag_show", True),
    "line40": lambda o: setattr(o, "python_max_line_length", 40),
    "lineneg": lambda o: setattr(o, "python_max_line_length", -1),
    "pyindent2": lambda o: setattr(o, "python_indent_size", 2),
    "macro_repl": lambda o: (setattr(o, "macro_define_include_by_name__regex", "MACRO"), o.macro_name_replacements.add_replacements([("MACRO", "MAC")])),
    "ptype_repl": lambda o: o.fn_params_type_replacements.add_replacements([(r"\bint\b", "Integer")]),
    "ex_ptype": lambda o: setattr(o, "fn_exclude_by_param_type__regex", "^double$"),
    "ex_sig": lambda o: setattr(o, "fn_exclude_by_name_and_signature", {"GetIndex": "int", "DoIt": "int"}),
    "ex_pname": lambda o: setattr(o, "fn_params_exclude_names__regex", "^(k|q|m)$"),
    "ex_pty": lambda o: setattr(o, "fn_params_exclude_types__regex", "^float$"),
    "ns_vectorize": lambda o: (setattr(o, "fn_namespace_vectorize__regex", "Abc$"), setattr(o, "fn_vectorize__regex", ".*"), setattr(o, "fn_vectorize_prefix", "v_")),
    "ret_refs": lambda o: setattr(o, "fn_return_force_policy_reference_for_references__regex", ".*"),
    "no_std_array": lambda o: setattr(o, "fn_params_replace_c_array_const_by_std_array__regex", ""),
    "no_boxed_array": lambda o: setattr(o, "fn_params_replace_c_array_modifiable_by_boxed__regex", ""),
    "no_str_list": lambda o: setattr(o, "fn_params_replace_c_string_list__regex", ""),
    "mutable_nocomment": lambda o: (setattr(o, "fn_params_adapt_mutable_param_with_default_value__regex", ".*"), setattr(o, "fn_params_adapt_mutable_param_with_default_value__add_comment", False)),
    "ex_class": lambda o: setattr(o, "class_exclude_by_name__regex", "^Node$|0$"),
    "ex_member": lambda o: setattr(o, "member_exclude_by_name__regex", "^s0$|innerValue"),
    "ex_mtype": lambda o: setattr(o, "member_exclude_by_type__regex", "^float$"),
    "ro_type": lambda o: setattr(o, "member_readonly_by_type__regex", "^int$"),
    "no_struct_ctor": lambda o: setattr(o, "struct_create_default_named_ctor__regex", ""),
    "no_tpl_deco": lambda o: (setattr(o, "class_template_decorate_in_stub", False), setattr(o, "fn_template_decorate_in_stub", False)),
    "no_marray": lambda o: setattr(o, "member_numeric_c_array_replace__regex", ""),
    "ns_all": lambda o: setattr(o, "namespace_exclude__regex", ""),
    "ex_enum": lambda o: setattr(o, "enum_exclude_by_name__regex", "^Kind$"),
    "enum_prefix": lambda o: setattr(o, "enum_flag_remove_values_prefix", False),
    "enum_priv": lambda o: setattr(o, "enum_flag_remove_values_prefix_group_private", True),
    "enum_count": lambda o: setattr(o, "enum_flag_skip_count", False),
    "enum_flag": lambda o: setattr(o, "enum_make_flag__regex", "Color|Eo"),
    "enum_export": lambda o: setattr(o, "enum_export_values", True),
    "no_regions": lambda o: setattr(o.srcmlcpp_options, "header_filter_preprocessor_regions", False),
    "regions_opt": lambda o: setattr(o.srcmlcpp_options, "header_filter_acceptable__regex", "OPT_.*"),
    "ignore_warn": lambda o: o.srcmlcpp_options.ignored_warning_parts.append("gnor"),
    "no_brace_fix": lambda o: setattr(o.srcmlcpp_options, "fix_brace_init_default_value", False),
    "tpl_class2": lambda o: o.class_template_options.add_specialization("^TplC", ["int", "double"], ["Alias=int"]),
    "tpl_fn2": lambda o: o.fn_template_options.add_specialization(".*", ["int", "float", "std::string"], add_suffix_to_function_name=False),
    "num_macros2": lambda o: o.srcmlcpp_options.named_number_macros.update(MACRO_MAX=4, NY=2),
    "buffer_all": lambda o: (setattr(o, "fn_params_replace_buffer_by_array__regex", ".*"), setattr(o, "fn_params_buffer_types", "float|double|uint8_t|int32_t"), setattr(o, "fn_params_buffer_size_names__regex", "count|size|^n$")),
    "buffer_tpl": lambda o: (setattr(o, "fn_params_replace_buffer_by_array__regex", ".*"), setattr(o, "fn_params_buffer_template_types", "T|U"), o.fn_template_options.add_ignore("^Buf")),
    "buffer_tpl2": lambda o: (setattr(o, "fn_params_replace_buffer_by_array__regex", "^Buf|^foo|templated"), o.fn_template_options.add_specialization("NotBuf", ["int"], add_suffix_to_function_name=True)),
    "out_return_all": lambda o: setattr(o, "fn_params_output_modifiable_immutable_to_return__regex", ".*"),
    "nonapi_comment": lambda o: (setattr(o, "fn_non_api_comment", "(not public)"), setattr(o, "fn_exclude_non_api", False), setattr(o.srcmlcpp_options, "functions_api_prefixes", "MY_API|IMGUI_API")),
    "api_strict": lambda o: setattr(o.srcmlcpp_options, "functions_api_prefixes", "MY_API"),
    "no_char_null": lambda o: setattr(o, "fn_params_const_char_pointer_with_default_null", False),
    "marray_types": lambda o: setattr(o, "member_numeric_c_array_types", "int|float"),
    "mut_immutable_value": lambda o: (setattr(o, "fn_params_adapt_mutable_param_with_default_value__regex", ".*"), setattr(o, "fn_params_adapt_mutable_param_with_default_value__fn_is_known_immutable_value", lambda v: v.endswith("()")),
                                      setattr(o, "fn_params_adapt_mutable_param_with_default_value__fn_is_known_immutable_type", lambda v: v in ("Foo", "Point2"))),
    "custom_class": lambda o: (o.custom_bindings.add_custom_bindings_to_class("Thing", "def custom_thing(self) -> int: ...", 'LG_CLASS.def("custom_thing", [](Thing& self) { return 1; });'),
                               o.custom_bindings.add_custom_bindings_to_class("Foo", "def custom_foo(self) -> int: ...", 'LG_CLASS.def("custom_foo", [](Foo& self) { return 1; });'), o.custom_bindings.add_custom_bindings_to_class("Abc::Node", "def custom_node(self) -> int: ...", None)),
    "inherit": lambda o: setattr(o, "class_custom_inheritance__callback", lambda c, t: ["enum.Enum" if t.name == "stub" else "PyEnum"] if c.cpp_element().class_name in ("Thing", "Foo", "Node") else []),
    "adapter": lambda o: o.fn_custom_adapters.append(_rename_a),
    "cv_repl": lambda o: (o.type_replacements.merge_replacements(_cv()), o.value_replacements.merge_replacements(_cv())),
    "first_repl": lambda o: (o.type_replacements.add_first_replacement(r"\bdouble\b", "float64"), o.type_replacements.add_first_replacement(r"\bint\b", "int32")),
    "no_positions": lambda o: setattr(o.srcmlcpp_options, "flag_srcml_dump_positions", False),
    "cpp_indent_str": lambda o: setattr(o.srcmlcpp_options, "indent_cpp_str", "  "),
    "ignored": lambda o: _ignore(o),
    "callstack": lambda o: setattr(o.srcmlcpp_options, "flag_show_python_callstack", True),
    "tpl_syn": lambda o: o.class_template_options.add_specialization("^MyTemplateClass|^TplC|^ImVector", ["int", "std::string", "ImGuiConfig"], ["MyInt=int", "Text=std::string"]),
    "tpl_fn_many": lambda o: (o.fn_template_options.add_specialization("SumVector|^Add", ["int", "std::string"], add_suffix_to_function_name=True), o.fn_template_options.add_specialization("Tpl|Max|^T", ["double"], add_suffix_to_function_name=False)),
    "ns_root2": lambda o: setattr(o, "namespaces_root", ["Root", "N", "Main", "A", "Ns"]),
    "enum_ex2": lambda o: (setattr(o, "enum_exclude_by_name__regex", "Detail$|^Mode$"), setattr(o, "class_exclude_by_name__regex", "Detail$")),
    "dyn_foo": lambda o: (setattr(o, "class_dynamic_attributes__regex", "Foo|Dynamic$"), setattr(o, "class_deep_copy__regex", "^Copyable_|Foo"), setattr(o, "class_copy__regex", "^Copyable_|Foo")),
    "iter_any": lambda o: (o.class_iterables_infos.add_iterable_class("Iter|MyData", "float"), o.class_iterables_infos.add_iterable_class("^Foo$", "Inner")),
    "virt_some": lambda o: (setattr(o, "class_override_virtual_methods_in_python__regex", "^MyVirtual|^Virt|V$"), setattr(o, "class_expose_protected_methods__regex", "^MyVirtual|^Virt|V$")),
    "gil_all": lambda o: setattr(o, "fn_add_gil_scoped_release_guard__regex", ".*"),
    "lambda_all": lambda o: setattr(o, "fn_force_lambda__regex", ".*"),
    "exact_filter": lambda o: (setattr(o.srcmlcpp_options, "header_filter_preprocessor_regions", True), setattr(o.srcmlcpp_options, "header_filter_acceptable__regex", "MACRO|OPT_C|_H$")),
    "filter_default": lambda o: setattr(o.srcmlcpp_options, "header_filter_preprocessor_regions", True),
    "strip_empty": lambda o: setattr(o, "python_strip_empty_comment_lines", True),
}
# options of the same shape with other contents
TWINS = {"type_repl": "type_repl_b", "repl_a": "repl_b", "tpl_class": "tpl_class_b", "tpl_fn": "tpl_fn_b", "exclude_fn": "exclude_fn_b", "exclude_ns": "exclude_ns_b", "root_ns": "root_ns_b", "custom_main": "custom_main_b", "num_macros": "num_macros_b", "macros": "macros_b",
         "ex_class": "ex_class_b", "boxed_all": "boxed_some", "virtual_all": "virt_some", "ignore_warn": "ignore_warn_b", "regions_opt": "regions_opt_b", "enum_flag": "enum_flag_b", "member_ro": "member_ro_b", "custom_class": "custom_class_b"}
TWINS.update({b: a for a, b in list(TWINS.items())})
EXCLUSIVE = [{"nanobind", "vectorize"}, {"nanobind", "ns_vectorize"}]


def gen_options(rng, base=0.5, nmax=7, ban=()) -> list:
    names = [n for n in OPTION_OPS if n not in ban]
    out = []
    if rng.random() < base:
        out += [n for n in ("boxed_all", "virtual_all", "protected_all") if rng.random() < 0.8]
    for n in rng.sample(names, rng.randint(0, nmax)):
        if n not in out:
            out.append(n)
    for ex in EXCLUSIVE:
        both = [n for n in out if n in ex]
        for n in both[1:]:
            out.remove(n)
    return out


def make_options(names, extra=None):
    import litgen

    o = litgen.LitgenOptions()
    for n in names:
        OPTION_OPS[n](o)
    if extra:
        for k, v in extra.items():
            if k == "encoding":
                o.srcmlcpp_options.encoding = v
            else:
                setattr(o, k, v)
    return o


# ------------------------------------------------------------------ headers that share names
V_E = ["Color", "Kind", "Mode"]
V_S = ["Thing", "Node", "Mode_", "Color2"]
V_F = ["MakeThing", "GetIndex", "Node", "DoIt"]
V_N = ["Abc", "XAbc", "Lib", "Inner", "MyLib"]
V_T = ["int", "float", "double", "bool", "unsigned int", "std::string", "long long", "long", "size_t", "int8_t", "int16_t", "ssize_t", "uint8_t"]


def vocab_block(rng, depth=0) -> str:
    """declarations drawn from a small vocabulary, so that headers declare and mention one another's names"""
    e, s, f, n = rng.choice(V_E), rng.choice(V_S), rng.choice(V_F), rng.choice(V_N)
    x = rng.randint(0, 19)
    if x == 19:
        return k_deep(rng) if depth == 0 else f"void Fallback{f}({e} e);\n"
    if x == 18:
        return rng.choice([k_corpus, k_corpus, k_odd])(rng, str(rng.randint(0, 2)))
    if x == 17:
        return rng.choice([k_buffers, k_modif, k_operators])(rng, str(rng.randint(0, 2)))
    if x == 16:
        return k_corpus(rng, str(rng.randint(0, 2)))
    if x == 15:
        return k_tangled(rng, str(rng.randint(0, 2)))
    if x == 14:
        return f"struct Holder{rng.choice(V_S)}\n{{\n    {s} Give(const {rng.choice(V_S)}& t = {rng.choice(V_S)}(), {e} ee = {e}::SecondValue);\n    {rng.choice(V_S)} mem;\n    {e} kindOf = {e}::FirstValue;\n    int num = {f}(1);\n}};\n"
    if x == 0:
        return f"enum class {e}\n{{\n    FirstValue = {rng.randint(0, 3)},\n    SecondValue,  // {comment(rng)}\n    {rng.choice(['ThirdValue', 'Max_Count', 'COUNT'])} = 7\n}};\n"
    if x == 1:
        return f"enum {e}_\n{{\n    {e}_FirstValue = 0,\n    {e}_SecondValue,\n    {e}_Private_Value,\n    {e}_COUNT\n}};\n"
    if x == 2:
        return (f"struct {s}\n{{\n    static const int MaxValue = {rng.randint(1, 9)};\n    static {s} DefaultThing();\n    int innerValue = {rng.randint(0, 9)};\n"
                f"    enum class SubKind {{ KindA, KindB }};\n    struct Nested {{ int qValue = 2; }};\n    Nested Nest(Nested nn = Nested(), SubKind k = SubKind::KindB);\n}};\n")
    if x in (3, 4, 5):
        d = rng.sample([f"{e} e = {e}::FirstValue", f"{e}_ e1 = {e}_SecondValue", f"int n1 = {s}::MaxValue", f"{s}::SubKind k = {s}::SubKind::KindB", f"int o = {f}(3)", f"{n}::{e} q = {n}::{e}::SecondValue",
                        f"{n}::{s} t = {n}::{s}()", f"{s} u = {s}::DefaultThing()", f"int m = MACRO_MAX", f"{s}::Nested w = {s}::Nested()", f"int a2 = {n}::{f}(1)", f"std::vector<{s}> v = {{}}"], rng.randint(1, 4))
        return f"// {comment(rng)}\n{rng.choice(['void', 'int', s, f'{n}::{s}', f'{e}'])} Use{rng.choice('XYZ')}{rng.randint(0, 3)}({', '.join(d)});\n"
    if x == 6:
        return f"{rng.choice(['int', s, 'void'])} {f}(int aValue{rng.choice(['', ' = 1'])});\n"
    if x == 7:
        ts = rng.sample(V_T, rng.randint(1, 3))
        return f"void BoxIt{rng.randint(0, 2)}({', '.join(t + rng.choice('&*') + f' p{i}' for i, t in enumerate(ts))});\n"
    if x == 8:
        return f"class {s}V\n{{\npublic:\n    virtual ~{s}V() = default;\n    virtual int Go{f}(int xValue, {e} e = {e}::SecondValue) {{ return 0; }}\nprotected:\n    virtual void Hidden{f}();\n    int Guarded(float z);\n}};\n"
    if x == 9:
        return f"class {rng.choice(V_S)}D : public {s}V\n{{\npublic:\n    int Extra(double qq = 1.0);\n    int Go{f}(int xValue, {e} e = {e}::FirstValue) override;\n}};\n"
    if x == 10:
        return f"template<typename T> T Tpl{f}(T a, {s} s = {s}());\n" if rng.random() < 0.5 else f"template<class T> struct TplC{s} {{ T valueOf; {e} kindOf = {e}::FirstValue; }};\n"
    if x == 11:
        return rng.choice([f"#define MACRO_MAX {rng.randint(1, 99)}\n", f"const int gValue{rng.randint(0, 2)} = MACRO_MAX;\n", f"void Arr(int v[2], {s} w[3]);\n", f"struct {s} {{ int arr[MACRO_MAX]; }};\n"])
    if depth < 2:
        inner = "".join(vocab_block(rng, depth + 1) for _ in range(rng.randint(1, 3)))
        return f"namespace {n}\n{{\n{inner}}}\n"
    return f"void Fallback{f}({e} e);\n"


def k_deep(rng, u="") -> str:
    """namespaces three and four deep"""
    a, b, c, d = (rng.choice(["Abc", "Inner", "Lib"]) for _ in range(4))
    fn = f"void Deep{rng.choice('XYZ')}(int a = 1);\n" if rng.random() < 0.6 else f"struct Deep{rng.choice('ST')} {{ int deep = 1; }};\n"
    if rng.random() < 0.4:
        return f"namespace {a}::{b}::{c}\n{{\n    {fn}}}\n"
    if rng.random() < 0.4:
        return f"namespace {a} {{ namespace {b} {{ namespace {c} {{ namespace {d}\n{{\n{fn}}} }} }} }}\n"
    return f"namespace {a}\n{{\n    namespace {b}\n    {{\n        namespace {c}\n        {{\n            {fn}        }}\n    }}\n}}\n"


def vocab_header(rng, nmax=5, warn=0.1) -> str:
    out = []
    for i in range(rng.randint(1, nmax)):
        if rng.random() < warn:
            out.append(k_warn(rng, f"v{rng.randint(0, 3)}"))
        out.append(vocab_block(rng))
        if rng.random() < 0.3:
            out.append("\n")
    return "".join(out)


def any_header(rng, tag="", warn=0.1, nmax=4) -> str:
    if rng.random() < 0.6:
        return vocab_header(rng, nmax + 1, warn)
    return header(rng, tag, nmax, warn=warn)


# one header for which nearly every option makes a difference
RICH_MORE = """
template<class T>
struct TplCr
{
    T value;
    std::vector<T> values;
    void set(T v, const std::vector<T>& w = {});
};
namespace Inner { void InInner(int a = 2); }
namespace Lib { struct InLib { int lib; }; void LibFn(InLib l = InLib()); }
namespace Abc { namespace Inner { struct Deep { float deep; }; } namespace details { void Hidden(); } Inner::Deep Func(Inner::Deep a = Inner::Deep()); }
void Buf(const uint8_t* values, size_t count);
void Bufs(const float* values, size_t count, int stride = sizeof(float));
#define MACRO_MAX 7
#define MACRO_STR "str"
extern int gGlobal;
const int gConst = 2;
struct Node { int Nested; int w[NX]; int z[MACRO_MAX]; float innerValue; Node* next; int k = 2; double arr[4]; std::vector<int> list = {1, 2}; enum Nest { Nest_a, Nest_b }; };
struct Thing { int inner; float s0; int m0; const int Value = 2; std::map<int, float> mapping; };
void ArrC(const int v[2], float k = 1.f);
void ArrM(int v[3]);
void Str(const char * const items[], int items_count);
Node& Ref(Node& n);
Node* Ptr();
int GetIndex(int a);
int GetIndex(double d, float f);
enum Kind { Kind_A, Kind_B = 4, Kind_COUNT };
enum Color_ { Color_Red, Color_Green_, Color__Private, Color_COUNT };
void Mut(std::vector<int> v = {1, 2}, Thing e = Thing(), Kind kind = Kind_A);
void VeryLongFunctionName(int aVeryLongParameterName, float anotherVeryLongParameterName = 22.f, const std::string& yetAnotherVeryLongParameterName = "a very long default value"); // TODO long
// para one
//
//
// para two
void Doc();
struct Ctor { int x = 1; std::vector<int> values = {1, 2}; Thing t; };
"""

RICH_NEEDS = {"mutable_ctor": ["mutable_default", "class_ctor"], "no_tpl_deco": ["tpl_class", "tpl_fn"], "mutable_nocomment": ["mutable_default"], "loc1": ["loc"], "parents2": ["loc"], "fullpath": ["loc"], "num_macros": ["boxed_all"]}


def rich_parts() -> list:
    """RICH in four parts"""
    import random

    rng = random.Random(11)
    pieces = [k(rng, f"r{i}") for i, k in enumerate(KINDS)] + [k_warn(rng, "rw")]
    pieces += [RICH_MORE]
    more = RICH_MORE.strip("\n").split("\n")
    cut = next(i for i, x in enumerate(more) if x.startswith("struct Node"))
    return ["".join(pieces[:8]), "".join(pieces[8:-1]), "\n".join(more[:cut]) + "\n", "\n".join(more[cut:]) + "\n"]


# (the part on which an option shows; 3 for the others)
RICH_SHOWS = dict(boxed_all=1, virtual_all=0, protected_all=0, tpl_fn=1, tpl_class=2, exclude_fn=0, exclude_fn_b=0, exclude_ns_b=2, root_ns_b=2, tpl_fn_b=1, tpl_class_b=2, boxed_some=1, macros_b=2, regions_opt_b=1, ignore_warn_b=2,  exclude_ns=2, root_ns=2, class_ctor=0, out_return=1, buffer=2, force_lambda=2, gil=2, macros=2, globals=2, ns_repl=2, custom_ns=2, custom_lib=2,
                  iterable=0, vectorize=2, macro_repl=2, ex_pname=0, ns_vectorize=2, no_tpl_deco=2, ns_all=2, no_regions=1, regions_opt=1, exact_filter=1, filter_default=1, ignore_warn=2, no_brace_fix=0, tpl_class2=2, tpl_fn2=1, buffer_all=2, buffer_tpl=2,
                  buffer_tpl2=2, out_return_all=1, tpl_syn=2, tpl_fn_many=1, dyn_foo=0, iter_any=0, virt_some=1)
