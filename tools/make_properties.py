#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one reviewable place)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


CU = "src/codemanip/code_utils.py"
GEN = "src/litgen/litgen_generator.py"
AMA = "src/codemanip/amalgamated_header.py"
SRC = "src/srcmlcpp/internal/code_to_srcml.py"
CTX = "src/litgen/internal/context/litgen_context.py"
NST = "src/litgen/internal/context/namespaces_code_tree.py"
PIM = "src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py"
VAL = "src/litgen/validate_bindings_compilation/validate_bindings_compilation.py"
WRP = "src/srcmlcpp/srcml_wrapper.py"

prop("F01", "Hand-written text around generated regions survives every generation history",
     "Whatever sequence of generations, hand edits, failed runs and crashes an output file goes through, every byte outside its generated regions (line endings, trailing newline or its absence, non-ASCII text, surrounding order) and the marker lines themselves stay exactly as the user last wrote them. After a successful generation each region holds exactly the newly generated text, indented like its opening marker line, and nothing left over from an earlier generation.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "all histories of user edits, generations of differing code into one or several files and regions, and injected failures between them",
     "No repository test covers the in-place region rewriter at all with a history; the claim quantifies over every file layout and every edit/generate/fault sequence.",
     [CU, GEN],
     [("line scan between opening and closing marker", f"{CU}: write_generated_code_between_markers"), ("newline='' reads and writes keep line endings", f"{CU}: read_text_file/write_text_file")],
     state=[("marked region", "text between <token> and </token> lines", "the output files")],
     observe=["bytes of the pydef, stub and glue files after every step of the history"])

prop("F02", "An output file is always wholly old or wholly new under crash or I/O error",
     "If the process is killed, power fails, or any file operation fails at any instant while an output file is being updated, the file then contains either exactly its complete previous content or exactly its complete new content, never an empty, truncated or mixed one. (When one file holds several generated regions, each region is replaced as one such step.) The file's permissions, and the fact of it being a symbolic link, are unchanged by an update.",
     ["crash_points", "fault_sequences"],
     "every kill or power-loss point and every single or persistent file-operation error (disk full, short write, I/O error on read, write, sync, close or rename) during an update",
     "Tests never inject a crash or an I/O error; a truncate-and-rewrite update passes them all and loses the user's file on the first disk-full.",
     [CU, GEN, AMA, PIM],
     [("replace-by-rename update", f"{CU}: write_text_file")],
     observe=["directory image at the kill point"])

prop("F03", "Generation never reports success while an output is missing, malformed or stale",
     "If an output file (binding, stub or separate glue file) is missing, unreadable, lacks its marker pair, or has a malformed one (never closed, closed before opened, nested), or if any file operation needed to publish the generated code fails, the caller gets an exception. A file rejected for its markers keeps, byte for byte, the content it had when it was rejected, and a run that returns normally has published every output in full.",
     ["fault_sequences", "inputs", "configurations"],
     "every malformed-marker layout, missing output, and failing file operation, in every combination of output files",
     "No test exercises a missing or malformed output or a failing write; a swallowed error is invisible to them.",
     [CU, GEN],
     [("marker validation", f"{CU}: write_generated_code_between_markers"), ("error propagation per output file", f"{GEN}: write_generated_code")],
     observe=["raised exception vs file bytes"])

prop("F04", "Re-running generation converges: recovery after faults, idempotence, no litter",
     "After any history of failed, killed or partial generations, one fault-free run leaves every output byte-identical to what a single undisturbed run from the user's original files produces. A second identical run changes nothing (files with unchanged content are not even rewritten), and completed runs leave no stray files behind.",
     ["histories", "crash_points", "fault_sequences"],
     "all sequences of faulted runs followed by a clean run, and repeated clean runs",
     "Tests run generation once on clean inputs; convergence quantifies over every prior fault history.",
     [CU, GEN, AMA],
     [("content comparison before writing", f"{CU}: write_text_file"), ("region content fully replaced", f"{CU}: write_generated_code_between_markers")],
     observe=["file bytes, modification times and directory listing"])

prop("F05", "A multi-header run publishes every header once, in order, consistently",
     "When a run over a list of headers succeeds, the binding, stub and glue outputs all describe exactly that list, each header once and in the order given, identical to feeding the same headers to one generator and publishing once. When it stops part-way (unreadable or failing header, I/O error, crash) each generated region holds the complete result for some prefix of the list or its previous content, no header beyond the failing one is published, and the error reaches the caller.",
     ["crash_points", "fault_sequences", "inputs"],
     "all non-empty lists of distinct headers and every stop point within the run",
     "Tests use single in-memory headers; the multi-file publishing loop has no test and no fault is ever injected in it.",
     [GEN, CTX],
     [("publish loop", f"{GEN}: write_generated_code_for_files"), ("accumulated per-header results", f"{GEN}: LitgenGenerator._generated_codes")],
     observe=["the three output files after success, failure and kill"])

prop("F06", "Text files are read and written as UTF-8 whatever the machine's locale",
     "The bytes published for given headers and output files do not depend on the locale's default text encoding: non-ASCII hand-written text is preserved and non-ASCII generated text is published as UTF-8 under any locale. A header that declares another encoding in the options is read with that encoding.",
     ["configurations", "inputs"],
     "all default encodings (UTF-8, ASCII, Latin-1, cp1252, Shift-JIS, UTF-16) and all non-ASCII content in headers, output files and validation projects",
     "Tests run under one locale; an encoding taken from the environment only misbehaves elsewhere, typically destroying the file half-way through encoding.",
     [CU, GEN, AMA, PIM, VAL],
     [("explicit encoding at every text open", f"{CU}: read_text_file/write_text_file; {GEN}: _read_code")],
     observe=["bytes of the outputs under a simulated default encoding"])

prop("F07", "A failing stub formatter never costs the stub nor the run",
     "When automatic stub formatting is enabled, the formatter is run on exactly the published stub file, whatever characters its path contains; if it is absent, fails or is killed, generation still completes, the complete unformatted stub is in place, all other outputs are published and a warning is logged. When it succeeds, the stub on disk is the formatter's result for the published content.",
     ["fault_sequences", "configurations"],
     "all formatter outcomes (success, absent, error exit, killed, unspawnable), all stub paths including spaces and shell metacharacters, PATH set, unset or empty",
     "No test enables the formatter; its failures depend on the environment and the child process's fate.",
     [GEN],
     [("child process exit status handling", f"{GEN}: apply_black_formatter_pyi")],
     observe=["simulated child process arguments, stub bytes, log records"])

prop("A01", "An amalgamated header contains every reachable local header exactly once",
     "The amalgamation of a main (UTF-8) header contains the text of every local header reachable from it exactly once, each before the text that follows its first inclusion, and each distinct external include line once, for any include graph including cycles, diamonds and several search directories. If any reachable header is missing or cannot be read completely the caller gets an exception and no partial amalgamation is published.",
     ["inputs", "fault_sequences"],
     "all include graphs over several search directories, with any header missing, unreadable, short-read or failing mid-read",
     "Tests cover a handful of fixed graphs and never a failing read.",
     [AMA],
     [("already-included list", f"{AMA}: _amalgamate_one_file"), ("search directory precedence", f"{AMA}: _amalgamate_one_file")],
     observe=["amalgamation content, raised exception"])

prop("A02", "The amalgamated file is old or new, converges, and is left alone if unchanged",
     "Writing an amalgamation leaves the destination either absent or with its old complete content, or with the new complete content, whatever instant the process is killed or a file operation fails; failures raise. A re-run after any such failure yields the undisturbed result, and when the content is unchanged the destination is not rewritten.",
     ["crash_points", "fault_sequences", "histories"],
     "every kill point and file-operation fault during reads and the write, and all histories of header edits and re-runs",
     "No test injects faults or looks at the destination between steps.",
     [AMA],
     [("content comparison then write", f"{AMA}: _fwrite_content")],
     observe=["destination bytes, mtime and directory listing"])

prop("B01", "The external srcML process backend equals the in-process one, even concurrently",
     "Parsing and unparsing through the external srcml program gives exactly the results of the in-process library, for every text and encoding, and any number of processes or threads doing so at once in one temporary directory never see each other's data. No temporary file is left behind by completed calls.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of several concurrent callers' file operations and child processes, identical random seeds in the callers, and temporary directories with any name",
     "Tests use only the in-process backend, one call at a time; the process backend is never executed.",
     [SRC],
     [("temporary file naming and hand-off", f"{SRC}: _make_xml_str_by_subprocess/_make_cpp_str_by_subprocess")],
     observe=["returned tree/code and temporary directory listing"])

prop("B02", "A failing external srcML call is an error, never a wrong or stale result",
     "If the srcml program is absent, exits with an error, is killed, or its input or output file cannot be written, read or is missing, the caller gets an error rather than a result. The failed call leaves no temporary files, and later calls behave as if it had never happened.",
     ["fault_sequences", "crash_points"],
     "every fault position in the exchange of temporary files with the child process, and all sequences of failing and succeeding calls",
     "The process backend has no test and no fault is ever injected into it.",
     [SRC],
     [("exit status check and clean-up", f"{SRC}: _call_subprocess")],
     observe=["returned value or exception, temporary directory listing"])

prop("C01", "Generators running in concurrent threads behave as if alone",
     "When several generators (and direct parses) run in different threads of one process, each one's binding code, stub code, glue code or error is exactly what it is when run alone, under every thread interleaving. No run hangs.",
     ["schedules"],
     "all interleavings of 2 to 4 threads at source-line granularity, over headers and option sets that differ",
     "Tests are single-threaded; races on process-wide state need specific interleavings.",
     [SRC, "src/srcmlcpp/internal/code_cache.py", "src/codemanip/parse_progress_bar.py", GEN, CTX],
     [("per-generator context", f"{CTX}: LitgenContext"), ("process-wide parser state", f"{SRC}: code_to_srcml")],
     observe=["generated texts and exceptions of each thread"])

prop("C02", "Generators interleaved, nested or re-entered in one process are independent",
     "Any interleaving of operations on several generators in one process, including generating from inside a user callback of another generation, gives each generator exactly the output it produces alone in a fresh process. An exception or interrupt in one of them changes nothing for the others.",
     ["histories", "schedules", "fault_sequences"],
     "all operation sequences over several live generators with shared or separate option objects, with callbacks that re-enter and exceptions at arbitrary points",
     "Each test builds one generator and drops it; cross-talk through process-wide or class-level state needs specific histories.",
     [GEN, CTX, "src/litgen/options.py", "src/litgen/internal/custom_bindings.py"],
     [("all state held per generator", f"{CTX}: LitgenContext")],
     observe=["pydef, stub and glue code of every generator"])

prop("D01", "Generated text is a function of the headers and options only",
     "The generated binding, stub and glue text for given headers and options is identical in every process: it does not depend on string-hash randomisation, the clock (including jumps), the working or temporary directory, environment variables, random state, or what the process generated, failed on or was interrupted in before.",
     ["configurations", "histories", "fault_sequences"],
     "all hash seeds, clock behaviours, directories, environments and prior in-process histories",
     "Tests run in one environment with a fixed hash seed; nondeterminism shows only across environments.",
     [GEN, NST, "src/litgen/internal/cpp_to_python.py", CTX],
     [("ordered containers for everything that reaches the output", f"{NST}; {GEN}: _boxed_types_cpp_code")],
     observe=["digest of the generated texts per environment"])

prop("H01", "Using an options object never changes it; option objects never share state",
     "Generating with an options object leaves it equivalent to what it was: any later generation with the same object, in the same or another generator, gives what a freshly configured identical object gives, including its one-time module-level custom code. Configuring one options object never affects another.",
     ["histories"],
     "all sequences of configuring several option objects and generating with them in any order, with failures in between",
     "Tests build a fresh options object each and use it once.",
     ["src/litgen/options.py", "src/litgen/internal/custom_bindings.py", "src/litgen/internal/template_options.py", "src/codemanip/code_replacements.py"],
     [("per-instance option fields", "src/litgen/options.py: LitgenOptions.__init__"), ("once-per-generator emission of module-level custom code", "src/litgen/internal/custom_bindings.py")],
     observe=["generated text with used vs fresh options"])

prop("H02", "A header that fails or is interrupted contributes nothing to later output",
     "If processing a header raises or is interrupted at any point, the generator's output is exactly as if that header had never been submitted: no declarations, namespaces, helper types, glue code or name knowledge of it appear in later queries or influence later headers. Processing it again successfully gives the same result as if the failure had not happened.",
     ["fault_sequences", "crash_points", "histories"],
     "an exception or interrupt at every executed line of processing, within any sequence of headers",
     "No test continues using a generator after a failure.",
     [GEN, CTX, NST],
     [("context state restored or committed as a whole", f"{GEN}: LitgenGenerator.process_cpp_code")],
     observe=["generator queries after the failure vs a twin that skipped the header"])

prop("H03", "Reading a generator's results is pure and order-independent",
     "Asking a generator for its binding code, stub code, glue code, or whether it has glue code or boxed types, any number of times, in any order, interleaved with writing them out and with failing queries, always gives the same answers for the same processed headers and never influences headers processed later.",
     ["histories", "fault_sequences"],
     "all sequences of queries, writes (succeeding or failing) and header submissions",
     "Tests query each generator once, in one order.",
     [GEN],
     [("results stored per header, assembled on demand", f"{GEN}: pydef_code/stub_code/glue_code")],
     observe=["query answers along the sequence"])

prop("M01", "Diagnostics quote the true location and source of the code they are about",
     "Every warning or parse error about a piece of a header names that header's file (if it has one) and line and quotes the source text found at that line of that very header, whatever else the process parsed before, in between or concurrently. The set of warnings for a header does not depend on that history.",
     ["histories", "schedules"],
     "all histories and thread interleavings of other parses in the process, with and without file names, and re-parses of a changed file under the same name",
     "Tests check one message at a time in an otherwise idle process.",
     [WRP, "src/srcmlcpp/internal/code_cache.py", "src/srcmlcpp/srcmlcpp_main.py"],
     [("source kept for messages", f"{WRP}: str_code_context_with_caret")],
     observe=["stderr and log messages, exception messages"])

prop("S01", "Reading a parsed C++ tree does not change it, and parses are independent",
     "Every question about a tree that srcmlcpp parsed (its code, overview, xml, positions, scopes, ancestors; facts about its classes, functions, types, enums and defines; its qualified, terse, specialised or copied elements and what they answer in turn) has the answer it would have as the only question ever asked of a freshly parsed tree: in any order, however often, after questions that were interrupted or failed, after copies of elements were modified, whatever else the process parsed or failed to parse in between, and while other threads work on trees of their own.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of questions, derived elements, modifications of copies and other parses, with interruptions at any executed line, and interleavings of threads with a tree each",
     "Tests ask one or two questions of a fresh tree; the answers are cached in the elements (scopes, qualified types, int defines, enum values), and a cache that forgets what its answer depends on shows only in a history.",
     ["src/srcmlcpp/cpp_types/base/cpp_element.py", "src/srcmlcpp/cpp_types/decls_types/cpp_decl.py", "src/srcmlcpp/cpp_types/functions/cpp_function_decl.py", "src/srcmlcpp/cpp_types/blocks/cpp_unit.py", WRP],
     [("cached scopes", "src/srcmlcpp/cpp_types/base/cpp_element.py: cpp_scope"), ("cached qualified and terse versions", "src/srcmlcpp/cpp_types/scope/scoped_element_cache.py"), ("copies of elements", "CppElement.__deepcopy__")],
     observe=["answers of the public methods of the elements"])

prop("V01", "Binding validation reports success exactly when every step succeeded",
     "The compile-and-test validation returns true if and only if the project files were all written, configuration, build and (when given) the Python test all ran and exited with success on them; any failed, killed, unspawnable or unreached step gives false or an exception, never true. The verdict does not depend on the current directory, on whether the work directory is given as a relative path, or on leftovers from earlier validations.",
     ["fault_sequences", "configurations", "histories"],
     "every outcome of each child process and file operation, all work-directory configurations and sequences of validations",
     "No test runs the validation; it needs a compiler tool chain and failing children.",
     [VAL],
     [("exit status check per step", f"{VAL}: validate_bindings_compilation")],
     observe=["returned value against the simulated children's fates"])

prop("V02", "Binding validation removes exactly the directories it was told to",
     "A validation run only creates, changes or removes files inside its own work directory; after it reports success the work directory is removed if and only if removal on success was requested, after it reports failure if and only if removal on failure was requested, and a caller-supplied directory starts out free of leftovers unless reuse was requested.",
     ["fault_sequences", "configurations"],
     "every failing step or file operation, every combination of the removal, reuse and directory settings",
     "No test runs the validation; the clean-up paths differ per failing step.",
     [VAL],
     [("clean-up per outcome", f"{VAL}: validate_bindings_compilation")],
     observe=["directory tree before and after"])

prop("P01", "The PImpl publisher updates its source and header safely and consistently",
     "Publishing a PImpl class leaves each of the two files with exactly its old or its new complete content whatever fails or is killed, never alters text outside the marked regions, and after a re-run both match the class definition; a second run changes nothing. If either file is missing or lacks its markers the caller gets an exception and neither file is modified.",
     ["crash_points", "fault_sequences", "inputs"],
     "every kill point and file fault during the update, and all combinations of missing files and malformed markers",
     "Tests publish one in-memory class; the two-file update is not tested under any failure.",
     [PIM, CU],
     [("two region rewrites", f"{PIM}: pimpl_my_file")],
     observe=["bytes of both files"])

# ---------------------------------------------------------------- pure translation guarantees (not simulation targets)
NA = {}


def na(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ["inputs"], text, why, files, mech)
    NA[id] = reason


PURE = "pure function of one header text and options: no schedule, clock, I/O, randomness or fault occurs between input and output, so there is nothing for a deterministic simulation to decide; input generation would only be dressed up as simulation"
T = "src/litgen/internal/adapted_types"
na("N01", "Binding code and stub declare the same API", "Every class, method, function, attribute and enumerator bound in the generated C++ code is declared in the stub with the same Python name and parameters, and vice versa.", "all C++ headers and options", "tests compare a finite set of expected texts", [T], [("paired stub/pydef emission", T)], PURE)
na("N02", "The stub is always valid Python", "For every header that is accepted, the stub is syntactically valid Python.", "all C++ headers and options", "tests sample headers", [T, "src/litgen/internal/cpp_to_python.py"], [("name and value translation", "src/litgen/internal/cpp_to_python.py")], PURE)
na("N03", "A bound function behaves like the C++ function it wraps", "Calling a generated binding has the effects and result of calling the C++ function with the corresponding arguments, for every parameter adaptation (buffers, C arrays, string lists, boxed and returned immutables, mutable defaults, variadic formats).", "all signatures, adaptations and argument values", "integration tests compile a fixed library", ["src/litgen/internal/adapt_function_params"], [("lambda adapters", "src/litgen/internal/adapt_function_params")], PURE)
na("N04", "Types and default values are translated faithfully", "A C++ type or default value is rendered in the stub as a Python type or value with the same meaning.", "all types and default values", "tests sample types and values", ["src/litgen/internal/cpp_to_python.py"], [("regex replacement tables", "src/litgen/internal/cpp_to_python.py")], PURE)
na("N05", "Overloads are all bound and de-duplicated only when equal in Python", "Every non-excluded C++ overload is bound, and a stub overload is dropped only if an identical Python signature is already declared.", "all overload sets", "tests sample overload sets", [T + "/stub_overload_dedup.py"], [("signature set", T + "/stub_overload_dedup.py")], PURE)
na("N06", "Names resolve to the right C++ scope", "Every type and value name used in generated C++ code is qualified so that it denotes the entity the header meant.", "all nestings of namespaces and classes", "tests sample nestings", ["src/srcmlcpp/cpp_types/scope"], [("scope identifier cache", "src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py")], PURE)
na("N07", "Template instantiation substitutes every parameter", "Instantiating a class or function template replaces every occurrence of each template parameter and nothing else.", "all templates and arguments", "tests sample templates", ["src/srcmlcpp/cpp_types/template"], [("template substitution", "src/srcmlcpp/cpp_types/template/cpp_i_template_host.py")], PURE)
na("N08", "Preprocessor regions are filtered as configured", "Code inside rejected preprocessor regions is never bound and code in accepted regions always is.", "all nestings of conditionals", "tests sample nestings", ["src/srcmlcpp/internal/filter_preprocessor_regions.py"], [("region state machine", "src/srcmlcpp/internal/filter_preprocessor_regions.py")], PURE)
na("N09", "Parsing and unparsing C++ is lossless", "Parsing code and printing it verbatim gives back the same code.", "all C++ texts", "tests sample texts", ["src/srcmlcpp/srcmlcpp_main.py", WRP], [("srcML round trip", "src/srcmlcpp/srcmlcpp_main.py")], PURE)
na("N10", "Comments reach the docstrings of the element they document", "Every comment attached to a bound element appears in that element's docstring in the stub and binding code.", "all comment placements", "tests sample placements", ["src/srcmlcpp/internal/srcml_comments.py"], [("comment grouping", "src/srcmlcpp/internal/srcml_comments.py")], PURE)
na("N11", "Python names are legal and follow the configured case", "Every generated Python name is a legal, non-reserved identifier in the configured naming convention.", "all C++ names", "tests sample names", [CU, "src/litgen/internal/cpp_to_python.py"], [("snake case conversion", f"{CU}: to_snake_case")], PURE)
na("N12", "Exclusion options are honoured everywhere", "An element matched by an exclusion option appears neither in binding, stub nor glue code, and all others do.", "all headers and exclusion regexes", "tests sample options", ["src/litgen/options.py", T], [("regex checks at each element", T)], PURE)
na("N13", "Generated trampolines override every virtual method", "With overriding enabled, every overridable public or protected virtual method, inherited ones included, has a trampoline with matching signature.", "all class hierarchies", "tests sample hierarchies", [T + "/adapted_class.py"], [("virtual method collection", T + "/adapted_class.py")], PURE)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(here, "tools", "not_applicable.json"), "w") as f:
    json.dump([{"property": k, "reason": v} for k, v in NA.items()], f, indent=1)
