From a5c09be42c14bc5a5da62fff09c8a9fb611c3cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 01/33] fix: update text files in one step, always as utf-8

Truncating the output file before rewriting it destroyed the user's hand-written
code when the write failed or was interrupted (disk full, kill, character not
encodable in the locale's default encoding).
---
 src/codemanip/code_utils.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index cbbcc5e..88fa15f 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -1,10 +1,13 @@
 from __future__ import annotations
+import contextlib
 import difflib
 import itertools
 import logging
 import os.path
 import pathlib
 import re
+import stat
+import threading
 import traceback
 from typing import Any, Optional, TypeVar, Callable
 from collections.abc import Iterable, Iterator
@@ -264,7 +267,7 @@ def to_camel_case(name: str) -> str:
 
 
 def read_text_file(filename: str) -> str:
-    with open(filename, newline="") as f:
+    with open(filename, newline="", encoding="utf-8") as f:
         txt = f.read()
     return txt
 
@@ -273,11 +276,35 @@ def escape_new_lines(code: str) -> str:
     return code.replace("\n", "\\n").replace('"', '\\"')
 
 
+def replace_file_content(filename: str, content: str, newline: Optional[str] = "") -> None:
+    """Replaces the content of a file in one step (or creates it): if anything fails or is interrupted,
+    the file keeps its previous content. Permissions and symbolic links are preserved."""
+    target = os.path.realpath(filename)
+    target_stat = os.stat(target) if os.path.exists(target) else None
+    if target_stat is not None and not os.access(target, os.W_OK):
+        raise PermissionError(f"{filename} is not writable")
+    temp_filename = f"{target}.{os.getpid()}-{threading.get_ident()}.tmp"
+    try:
+        with open(temp_filename, "w", newline=newline, encoding="utf-8") as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        if target_stat is not None:
+            os.chmod(temp_filename, stat.S_IMODE(target_stat.st_mode))
+            if hasattr(os, "chown"):
+                with contextlib.suppress(OSError):
+                    os.chown(temp_filename, target_stat.st_uid, target_stat.st_gid)
+        os.replace(temp_filename, target)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temp_filename)
+        raise
+
+
 def write_text_file(filename: str, content: str) -> None:
     old_content = read_text_file(filename)
     if content != old_content:
-        with open(filename, "w", newline="") as f:
-            f.write(content)
+        replace_file_content(filename, content)
 
 
 def unindent_code(code: str, flag_strip_empty_lines: bool = False) -> str:
-- 
2.43.0


From 0a2b65ac19d8815a00bc75878902f61a0720cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 02/33] fix: reject malformed marker regions instead of
 destroying code

A missing end marker silently dropped everything after the start marker, a stray
end marker was duplicated at each run, and several regions accumulated their
indentation.
---
 src/codemanip/code_utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 88fa15f..28f3155 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -495,6 +495,9 @@ def write_generated_code_between_markers(
     if not os.path.isfile(inout_filename):
         raise FileNotFoundError(inout_filename)
 
+    if code_marker_in in code_to_insert or code_marker_out in code_to_insert:
+        raise RuntimeError(f"The code to insert in {inout_filename} contains the marker {marker_token}")
+
     input_code = read_text_file(inout_filename)
     input_code_lines = input_code.split("\n")
 
@@ -502,6 +505,8 @@ def write_generated_code_between_markers(
     is_inside_autogen_region = False
     was_replacement_performed = False
     for code_line in input_code_lines:
+        if code_marker_out in code_line and (code_marker_in in code_line or not is_inside_autogen_region):
+            raise RuntimeError(f"Encountered {code_marker_out} outside of a marked region in {inout_filename}")
         if code_marker_in in code_line:
             if is_inside_autogen_region:
                 raise RuntimeError(f"Encountered more than one code_marker: {code_marker_in}")
@@ -514,9 +519,9 @@ def write_generated_code_between_markers(
                 output_code = output_code + code_line + "\n"
 
                 if flag_preserve_indentation:
-                    code_to_insert = indent_code(code_to_insert, indent_str=indent_str)
-
-                output_code = output_code + code_to_insert
+                    output_code = output_code + indent_code(code_to_insert, indent_str=indent_str)
+                else:
+                    output_code = output_code + code_to_insert
 
         else:
             if not is_inside_autogen_region:
@@ -530,6 +535,9 @@ def write_generated_code_between_markers(
     if output_code[-1:] == "\n":
         output_code = output_code[:-1]
 
+    if is_inside_autogen_region:
+        raise RuntimeError(f"Missing {code_marker_out} after {code_marker_in} in {inout_filename}")
+
     if not was_replacement_performed:
         is_python_file = inout_filename.endswith("py")
         __ = "#" if is_python_file else "//"
-- 
2.43.0


From 7e0578bfe9279592e9571597069dc562a5632ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 03/33] fix: report a missing or incorrect separate glue code
 file as an error

write_generated_code() swallowed the exception and returned normally, leaving a
stale glue code file.
---
 src/litgen/litgen_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litgen/litgen_generator.py b/src/litgen/litgen_generator.py
index ee92a2d..5888d95 100644
--- a/src/litgen/litgen_generator.py
+++ b/src/litgen/litgen_generator.py
@@ -119,8 +119,8 @@ class LitgenGenerator:
             if output_cpp_glue_code_file != output_cpp_pydef_file:
                 logging.warning(help_glue_file(output_cpp_glue_code_file))
             else:
-                logging.warning(help_stub_file(output_stub_pyi_file))
-                raise
+                logging.warning(help_pybind_file(output_cpp_pydef_file, self.options().bind_library))
+            raise
 
     def options(self) -> LitgenOptions:
         return self.lg_context.options
-- 
2.43.0


From 584e93a631bc5df643a72218219f34d9569d038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 04/33] fix: run the stub formatter whatever the stub path and
 the environment

The stub path was handed unquoted to a shell, and an unset PATH raised KeyError
before the glue code was written.
---
 src/litgen/litgen_generator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/litgen/litgen_generator.py b/src/litgen/litgen_generator.py
index 5888d95..d2ac390 100644
--- a/src/litgen/litgen_generator.py
+++ b/src/litgen/litgen_generator.py
@@ -44,18 +44,19 @@ def apply_black_formatter_pyi(options: LitgenOptions, file: str) -> bool:
 
             python_exe = pathlib.Path(sys.executable)
             python_exe_folder = python_exe.parent
-            current_path = os.environ["PATH"]
-            if str(python_exe_folder) not in current_path:
-                os.environ["PATH"] += ":" + str(python_exe_folder)
+            current_folders = [folder for folder in os.environ.get("PATH", "").split(os.pathsep) if folder]
+            if str(python_exe_folder) not in current_folders:
+                os.environ["PATH"] = os.pathsep.join(current_folders + [str(python_exe_folder)])
 
         add_python_exe_folder_to_env_path()
 
-        cmd = f"black --target-version py310 --line-length {options.python_black_formatter_line_length} {file}"
+        line_length = str(options.python_black_formatter_line_length)
+        cmd = ["black", "--target-version", "py310", "--line-length", line_length, "--", file]
 
         try:
-            subprocess.check_call(cmd, shell=True)
+            subprocess.check_call(cmd)
             return True
-        except subprocess.CalledProcessError:
+        except (subprocess.CalledProcessError, OSError):
             return False
 
     return _apply_black_formatter_pyi_via_subprocess(options, file)
-- 
2.43.0


From c95a7c9a82f383083f27d78055a38b728fe5ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 05/33] fix: emit main module custom bindings once per
 generator, not once per options

Using the same LitgenOptions for a second generation silently dropped the custom
bindings of the main module.
---
 .../internal/adapted_types/adapted_unit.py    | 26 ++++++++++++-------
 src/litgen/internal/context/litgen_context.py |  4 +++
 src/litgen/internal/custom_bindings.py        | 20 --------------
 3 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_unit.py b/src/litgen/internal/adapted_types/adapted_unit.py
index 0f6f258..dd989c8 100644
--- a/src/litgen/internal/adapted_types/adapted_unit.py
+++ b/src/litgen/internal/adapted_types/adapted_unit.py
@@ -34,11 +34,14 @@ class AdaptedUnit(AdaptedBlock):
         r += context_namespaces_code
 
         # custom bindings for the global namespace
-        custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
-            is_pydef=False, pydef_main_module_var_name="m"
-        )
-        if custom_code is not None:
-            r += custom_code
+        # (emitted only once per context, since a generator may process multiple header files)
+        if not self.lg_context.main_module_custom_stub_emitted:
+            custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
+                is_pydef=False, pydef_main_module_var_name="m"
+            )
+            if custom_code is not None:
+                r += custom_code
+                self.lg_context.main_module_custom_stub_emitted = True
 
         global_progress_bars().stop_progress_bar(_PROGRESS_BAR_TITLE_STUB)
         return r
@@ -51,11 +54,14 @@ class AdaptedUnit(AdaptedBlock):
         r += context_namespaces_code
 
         # custom bindings for the global namespace
-        custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
-            is_pydef=True, pydef_main_module_var_name="m"
-        )
-        if custom_code is not None:
-            r += custom_code
+        # (emitted only once per context, since a generator may process multiple header files)
+        if not self.lg_context.main_module_custom_pydef_emitted:
+            custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
+                is_pydef=True, pydef_main_module_var_name="m"
+            )
+            if custom_code is not None:
+                r += custom_code
+                self.lg_context.main_module_custom_pydef_emitted = True
 
         global_progress_bars().stop_progress_bar(_PROGRESS_BAR_TITLE_PYDEF)
         return r
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 178e34f..fe7922e 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -65,6 +65,10 @@ class LitgenContext:
 
     current_parsed_filename: str = ""
 
+    # Were the custom bindings for the main module already emitted?
+    main_module_custom_stub_emitted: bool = False
+    main_module_custom_pydef_emitted: bool = False
+
     def __init__(self, options: LitgenOptions):
         self.options = options
         self.encountered_cpp_boxed_types = set()
diff --git a/src/litgen/internal/custom_bindings.py b/src/litgen/internal/custom_bindings.py
index 68ae496..26f68c5 100644
--- a/src/litgen/internal/custom_bindings.py
+++ b/src/litgen/internal/custom_bindings.py
@@ -174,10 +174,6 @@ class CustomBindings:
     def __init__(self) -> None:
         self._custom_binding_pydefs = {}
         self._custom_binding_stubs = {}
-        # Track whether main-module custom bindings have been emitted,
-        # to avoid duplicates when a single generator processes multiple header files.
-        self._main_module_emitted_pydef = False
-        self._main_module_emitted_stub = False
 
     def _get_custom_bindings_ref(self, is_pydef: bool) -> Dict[CppScope, List[str]]:
         return self._custom_binding_pydefs if is_pydef else self._custom_binding_stubs
@@ -239,23 +235,7 @@ class CustomBindings:
         return result
 
     def _pub_make_main_module_custom_code(self, pydef_main_module_var_name: str, is_pydef: bool) -> str | None:
-        # Emit only once per generator lifetime (a single generator may
-        # process multiple header files via repeated process_cpp_file calls).
-        if is_pydef:
-            if self._main_module_emitted_pydef:
-                return None
-        else:
-            if self._main_module_emitted_stub:
-                return None
-
         replacements = [_StringReplacement("LG_MODULE", pydef_main_module_var_name)]
         qual_class_scope = CppScope.from_string("")
         result = self._make_custom_code(qual_class_scope, is_pydef=is_pydef, replacements=replacements)
-
-        if result is not None:
-            if is_pydef:
-                self._main_module_emitted_pydef = True
-            else:
-                self._main_module_emitted_stub = True
-
         return result
-- 
2.43.0


From bafed87891baffdffe529528307ad4e864dac71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 06/33] fix: do not modify the user's options while parsing
 generated constructors

flag_show_progress stayed False if the parsing failed, or if two threads sharing
the options did this at the same time.
---
 src/litgen/internal/adapted_types/adapted_class.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 0c5429b..0a021fa 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 from dataclasses import dataclass
 from typing import cast
 
@@ -1334,10 +1335,9 @@ class PythonNamedConstructorHelper:
 
         def make_cpp_constructor() -> CppFunctionDecl:
             def make_cpp_unit_quiet(options: litgen.LitgenOptions, code: str) -> CppUnit:
-                flag_progress = options.srcmlcpp_options.flag_show_progress
-                options.srcmlcpp_options.flag_show_progress = False
-                unit = srcmlcpp.code_to_cpp_unit(options.srcmlcpp_options, code)
-                options.srcmlcpp_options.flag_show_progress = flag_progress
+                quiet_options = copy.copy(options.srcmlcpp_options)
+                quiet_options.flag_show_progress = False
+                unit = srcmlcpp.code_to_cpp_unit(quiet_options, code)
                 return unit
 
             cpp_code = make_fake_struct_cpp_code()
-- 
2.43.0


From 5a76d590587255842bd2e6aa97fa82f88daddac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 07/33] fix: a header whose processing fails leaves nothing in
 its generator

Namespaces, boxed types, glue code, etc. of the failed header leaked into the
output of the headers processed afterwards by the same generator.
---
 src/litgen/internal/context/litgen_context.py | 18 ++++++++++++-
 .../internal/context/replacements_cache.py    |  5 ++++
 src/litgen/litgen_generator.py                | 25 ++++++++++++-------
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index fe7922e..04f54ca 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
+import copy
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 from litgen.internal.context.namespaces_code_tree import (
     NamespacesCodeTree,
@@ -78,6 +79,21 @@ class LitgenContext:
         self._scoped_replacements = {}
         self.scope_members = {}
 
+    def save_state(self) -> dict[str, Any]:
+        """Returns a copy of the infos gathered so far (see restore_state)"""
+        state = copy.copy(self.__dict__)
+        state["encountered_cpp_boxed_types"] = set(self.encountered_cpp_boxed_types)
+        state["encountered_cpp_enums"] = list(self.encountered_cpp_enums)
+        state["namespaces_stub"] = copy.deepcopy(self.namespaces_stub, {id(self.options): self.options})
+        state["namespaces_pydef"] = copy.deepcopy(self.namespaces_pydef, {id(self.options): self.options})
+        state["_scoped_replacements"] = {k: v.copy() for k, v in self._scoped_replacements.items()}
+        state["scope_members"] = dict(self.scope_members)
+        return state
+
+    def restore_state(self, state: dict[str, Any]) -> None:
+        """Restores the infos returned by save_state, forgetting everything that was gathered since then"""
+        self.__dict__ = state
+
     def clear_namespaces_code_tree(self) -> None:
         self.namespaces_stub = NamespacesCodeTree(self.options, PydefOrStub.Stub)
         self.namespaces_pydef = NamespacesCodeTree(self.options, PydefOrStub.Pydef)
diff --git a/src/litgen/internal/context/replacements_cache.py b/src/litgen/internal/context/replacements_cache.py
index 5e7bb09..1a30a4f 100644
--- a/src/litgen/internal/context/replacements_cache.py
+++ b/src/litgen/internal/context/replacements_cache.py
@@ -22,3 +22,8 @@ class ReplacementsCache:
 
     def apply(self, s: str) -> str:
         return self.replacement_list.apply(s)
+
+    def copy(self) -> ReplacementsCache:
+        r = ReplacementsCache()
+        r.replacement_list.replacements = list(self.replacement_list.replacements)
+        return r
diff --git a/src/litgen/litgen_generator.py b/src/litgen/litgen_generator.py
index d2ac390..ec4a4fe 100644
--- a/src/litgen/litgen_generator.py
+++ b/src/litgen/litgen_generator.py
@@ -186,15 +186,22 @@ class LitgenGenerator:
         return r
 
     def process_cpp_code(self, code: str, filename: str) -> None:
-        if len(filename) > 0:
-            adapted_unit = code_to_adapted_unit_in_context(self.lg_context, code, filename)
-        else:
-            adapted_unit = code_to_adapted_unit_in_context(self.lg_context, code)
-        stub_code = adapted_unit.str_stub()
-        pydef_code = adapted_unit.str_pydef()
-        self.lg_context.clear_namespaces_code_tree()
-        generated_code = _GeneratedCode(source_filename=filename, stub_code=stub_code, pydef_code=pydef_code)
-        self._generated_codes.append(generated_code)
+        saved_state, nb_generated_codes = self.lg_context.save_state(), len(self._generated_codes)
+        try:
+            if len(filename) > 0:
+                adapted_unit = code_to_adapted_unit_in_context(self.lg_context, code, filename)
+            else:
+                adapted_unit = code_to_adapted_unit_in_context(self.lg_context, code)
+            stub_code = adapted_unit.str_stub()
+            pydef_code = adapted_unit.str_pydef()
+            self.lg_context.clear_namespaces_code_tree()
+            generated_code = _GeneratedCode(source_filename=filename, stub_code=stub_code, pydef_code=pydef_code)
+            self._generated_codes.append(generated_code)
+        except BaseException:
+            # a header that fails shall not leave anything in the generator
+            self.lg_context.restore_state(saved_state)
+            del self._generated_codes[nb_generated_codes:]
+            raise
 
     def _boxed_types_generated_code(self) -> _GeneratedCode | None:
         if self.omit_boxed_types:
-- 
2.43.0


From 5d76030b1cda2655d397e06ab61f763c8fedba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 08/33] fix: register the srcML xml namespaces once

ET.register_namespace is not thread safe: parsing in two threads raised KeyError.
---
 src/srcmlcpp/internal/code_to_srcml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp/internal/code_to_srcml.py b/src/srcmlcpp/internal/code_to_srcml.py
index df81a55..3b8b857 100644
--- a/src/srcmlcpp/internal/code_to_srcml.py
+++ b/src/srcmlcpp/internal/code_to_srcml.py
@@ -25,6 +25,11 @@ except ImportError:
     _USE_PYTHON_SRCML_CALLER_MODULE = False
 
 
+# (done once at import: register_namespace is not thread safe)
+ET.register_namespace("pos", "http://www.srcML.org/srcML/position")
+ET.register_namespace("", "http://www.srcML.org/srcML/src")
+
+
 # Count the total time used by call to the exe srcml
 _FLAG_PROFILE_SRCML_CALLS: bool = True
 
@@ -164,8 +169,6 @@ class _SrcmlCaller:
         else:
             output_str = self._make_xml_str_by_subprocess(encoding, input_str, dump_positions)
 
-        ET.register_namespace("pos", "http://www.srcML.org/srcML/position")
-        ET.register_namespace("", "http://www.srcML.org/srcML/src")
         element = ET.fromstring(output_str)
         if "filename" in element.attrib.keys():
             del element.attrib["filename"]
-- 
2.43.0


From 4c8405a1a37ff4134e8636f6fea09d7e6d438d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 09/33] fix: give each external srcml call its own temporary
 folder

Temporary names came from the global random generator, in a shared folder: two
processes with the same seed exchanged their codes. The files were left behind
on failure, and the shell broke on temporary paths with spaces.
---
 src/srcmlcpp/internal/code_to_srcml.py | 74 +++++++++++---------------
 1 file changed, 31 insertions(+), 43 deletions(-)

diff --git a/src/srcmlcpp/internal/code_to_srcml.py b/src/srcmlcpp/internal/code_to_srcml.py
index 3b8b857..f1d7085 100644
--- a/src/srcmlcpp/internal/code_to_srcml.py
+++ b/src/srcmlcpp/internal/code_to_srcml.py
@@ -10,7 +10,6 @@ import sys
 from typing import Optional
 import logging
 import os
-import random
 import subprocess
 import tempfile
 import time
@@ -66,13 +65,14 @@ class _SrcmlCaller:
     _stats_srcml_to_code: _TimeStats = _TimeStats()
 
     def _call_subprocess(self, encoding: str, input_filename: str, output_filename: str, dump_positions: bool) -> None:
-        position_arg = "--position" if dump_positions else ""
-
-        shell_command = f"srcml -l C++ {input_filename} {position_arg} --xml-encoding {encoding} --src-encoding {encoding} -o {output_filename}"
+        shell_command = ["srcml", "-l", "C++", input_filename]
+        if dump_positions:
+            shell_command.append("--position")
+        shell_command += ["--xml-encoding", encoding, "--src-encoding", encoding, "-o", output_filename]
         logging.debug(f"_SrcmlCaller.call: {shell_command}")
         try:
-            subprocess.check_call(shell_command, shell=True)
-        except subprocess.CalledProcessError as e:
+            subprocess.check_call(shell_command)
+        except (subprocess.CalledProcessError, OSError) as e:
             logging.error(f"_SrcmlCaller.call, error {e}")
             logging.error("""
             srcmlcpp requires the installation of srcML ( https://www.srcml.org )
@@ -83,50 +83,38 @@ class _SrcmlCaller:
             """)
             sys.exit(1)
 
-    def _random_filename(self) -> str:
-        characters = "abcdefghijklmnopqrstuvwxyz0123456789_"
-        r = "".join(random.choices(characters, k=14))
-        r = tempfile.gettempdir() + "/" + r
-        return r
-
     def _make_xml_str_by_subprocess(self, encoding: str, input_str: str, dump_positions: bool = False) -> str:
-        input_header_filename = self._random_filename() + ".h"
-        output_xml_filename = self._random_filename() + ".xml"
-
-        with open(input_header_filename, "wb") as input_header_file:
-            input_header_file.write(input_str.encode(encoding))
-            input_header_file.close()
-
-        self._call_subprocess(
-            encoding,
-            input_header_filename,
-            output_xml_filename,
-            dump_positions,
-        )
+        with tempfile.TemporaryDirectory(prefix="srcmlcpp_") as temp_dir:
+            input_header_filename = os.path.join(temp_dir, "input.h")
+            output_xml_filename = os.path.join(temp_dir, "output.xml")
 
-        with open(output_xml_filename, "rb") as output_xml_file:
-            output_bytes = output_xml_file.read()
-            output_xml_file.close()
+            with open(input_header_filename, "wb") as input_header_file:
+                input_header_file.write(input_str.encode(encoding))
+
+            self._call_subprocess(
+                encoding,
+                input_header_filename,
+                output_xml_filename,
+                dump_positions,
+            )
+
+            with open(output_xml_filename, "rb") as output_xml_file:
+                output_bytes = output_xml_file.read()
 
-        os.remove(input_header_file.name)
-        os.remove(output_xml_file.name)
         output_str = output_bytes.decode(encoding)
         return output_str
 
     def _make_cpp_str_by_subprocess(self, xml_bytes: bytes, encoding: str) -> str:
-        input_xml_filename = self._random_filename() + ".xml"
-        output_header_filename = self._random_filename() + ".h"
-        with open(input_xml_filename, "wb") as input_xml_file:
-            input_xml_file.write(xml_bytes)
-            input_xml_file.close()
-
-        self._call_subprocess(encoding, input_xml_filename, output_header_filename, False)
-
-        with open(output_header_filename, "rb") as output_header_file:
-            output_bytes = output_header_file.read()
-            output_header_file.close()
-        os.remove(input_xml_filename)
-        os.remove(output_header_filename)
+        with tempfile.TemporaryDirectory(prefix="srcmlcpp_") as temp_dir:
+            input_xml_filename = os.path.join(temp_dir, "input.xml")
+            output_header_filename = os.path.join(temp_dir, "output.h")
+            with open(input_xml_filename, "wb") as input_xml_file:
+                input_xml_file.write(xml_bytes)
+
+            self._call_subprocess(encoding, input_xml_filename, output_header_filename, False)
+
+            with open(output_header_filename, "rb") as output_header_file:
+                output_bytes = output_header_file.read()
         code_str = output_bytes.decode(encoding)
         return code_str
 
-- 
2.43.0


From 71f595db23c81e7218c2b57c293b6502509d8ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 10/33] fix: translate namespaces in a well-defined order

The order came from a set of strings: the stub depended on PYTHONHASHSEED when
the name of a namespace ends with the name of another one.
---
 src/litgen/internal/context/litgen_context.py       | 2 +-
 src/litgen/internal/context/namespaces_code_tree.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 04f54ca..000dee8 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -101,7 +101,7 @@ class LitgenContext:
     def qualified_stub_namespaces(self) -> set[CppQualifiedNamespaceName]:
         return self.namespaces_stub.qualified_namespaces()
 
-    def unqualified_stub_namespaces(self) -> set[CppNamespaceName]:
+    def unqualified_stub_namespaces(self) -> list[CppNamespaceName]:
         return self.namespaces_stub.unqualified_namespaces()
 
     def get_scoped_replacements(self, scope: CppScope) -> ReplacementsCache:
diff --git a/src/litgen/internal/context/namespaces_code_tree.py b/src/litgen/internal/context/namespaces_code_tree.py
index 5c41679..14f784c 100644
--- a/src/litgen/internal/context/namespaces_code_tree.py
+++ b/src/litgen/internal/context/namespaces_code_tree.py
@@ -107,8 +107,9 @@ class NamespacesCodeTree:
     def qualified_namespaces(self) -> set[CppQualifiedNamespaceName]:
         return self._created_namespaces
 
-    def unqualified_namespaces(self) -> set[CppNamespaceName]:
+    def unqualified_namespaces(self) -> list[CppNamespaceName]:
         r = set()
         for ns in self._created_namespaces:
             r.add(ns.split("::")[-1])
-        return r
+        # longest names first, so that the order of textual replacements is well-defined ("MyNs." before "Ns.")
+        return sorted(r, key=lambda ns: (-len(ns), ns))
-- 
2.43.0


From b2966f2ebccc15262874a6afe3482bb392a79337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 11/33] fix: quote the right source code in warnings and error
 messages

The source of the code parsed last without a file name was quoted, which is most
often a synthetic snippet parsed in between (types, generated constructors...).
---
 src/srcmlcpp/cpp_types/base/cpp_element.py |  2 +-
 src/srcmlcpp/internal/srcml_comments.py    |  2 +-
 src/srcmlcpp/srcml_wrapper.py              | 12 +++++++++---
 src/srcmlcpp/srcmlcpp_main.py              |  3 ++-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/base/cpp_element.py b/src/srcmlcpp/cpp_types/base/cpp_element.py
index d0fea23..1948d23 100644
--- a/src/srcmlcpp/cpp_types/base/cpp_element.py
+++ b/src/srcmlcpp/cpp_types/base/cpp_element.py
@@ -32,7 +32,7 @@ class CppElement(SrcmlWrapper):
     _cached_cpp_scope_include_self: CppScope
 
     def __init__(self, element: SrcmlWrapper) -> None:
-        super().__init__(element.options, element.srcml_xml, element.filename)
+        super().__init__(element.options, element.srcml_xml, element.filename, element.source_code)
         # self.parent is intentionally not filled!
 
     def __deepcopy__(self, memo=None):
diff --git a/src/srcmlcpp/internal/srcml_comments.py b/src/srcmlcpp/internal/srcml_comments.py
index dbed882..50b7ba5 100644
--- a/src/srcmlcpp/internal/srcml_comments.py
+++ b/src/srcmlcpp/internal/srcml_comments.py
@@ -197,7 +197,7 @@ def _group_consecutive_comments(srcml_code: SrcmlWrapper) -> SrcmlWrapper:
     for child_r in srcml_xml_grouped:
         children_r.append(child_r)
 
-    r = SrcmlWrapper(srcml_code.options, srcml_xml_grouped, srcml_code.filename)
+    r = SrcmlWrapper(srcml_code.options, srcml_xml_grouped, srcml_code.filename, srcml_code.source_code)
     return r
 
 
diff --git a/src/srcmlcpp/srcml_wrapper.py b/src/srcmlcpp/srcml_wrapper.py
index b0bebc4..1bd096b 100644
--- a/src/srcmlcpp/srcml_wrapper.py
+++ b/src/srcmlcpp/srcml_wrapper.py
@@ -25,19 +25,25 @@ class SrcmlWrapper:
     srcml_xml: ET.Element
     # the filename from which this tree was parsed
     filename: str | None = None
+    # the code from which this tree was parsed (used to display the context in messages)
+    source_code: str | None = None
     # debugging help: a string showing the start position of this element in the code
     code_location: str
 
-    def __init__(self, options: SrcmlcppOptions, srcml_xml: ET.Element, filename: str | None) -> None:
+    def __init__(
+        self, options: SrcmlcppOptions, srcml_xml: ET.Element, filename: str | None, source_code: str | None = None
+    ) -> None:
         """Create a wrapper from a xml sub node
         :param options:  the options
         :param srcml_xml: the xml node which will be wrapped
         :param parent: the parent
         :param filename: the name of the file from which this node was extracted
+        :param source_code: the code from which this node was extracted
         """
 
         self.options = options
         self.srcml_xml = srcml_xml
+        self.source_code = source_code
 
         # param sanity check
         if filename is not None:
@@ -184,7 +190,7 @@ class SrcmlWrapper:
         """Extract the xml sub nodes and wraps them"""
         r = []
         for child_xml in self.srcml_xml:
-            r.append(SrcmlWrapper(self.options, child_xml, self.filename))
+            r.append(SrcmlWrapper(self.options, child_xml, self.filename, self.source_code))
         return r
 
     def wrapped_child_with_tag(self, tag: str) -> SrcmlWrapper | None:
@@ -271,7 +277,7 @@ class SrcmlWrapper:
     def str_code_context_with_caret(self, max_lines: int) -> str:
         context: CodeContextWithCaret
         r = ""
-        full_code = code_cache.get_cached_code(self.filename)
+        full_code = self.source_code if self.source_code is not None else code_cache.get_cached_code(self.filename)
         if len(full_code) > 0:
             full_code_lines = [""] + full_code.split("\n")
 
diff --git a/src/srcmlcpp/srcmlcpp_main.py b/src/srcmlcpp/srcmlcpp_main.py
index 5b96556..37f9455 100644
--- a/src/srcmlcpp/srcmlcpp_main.py
+++ b/src/srcmlcpp/srcmlcpp_main.py
@@ -66,13 +66,14 @@ def code_to_srcml_wrapper(
         code = options.code_preprocess_function(code)
 
     code_cache.store_cached_code(filename, code)
+    source_code = code
 
     if options.preserve_empty_lines:
         code = srcml_comments.mark_empty_lines(code)
 
     xml = code_to_srcml.code_to_srcml(code, dump_positions=options.flag_srcml_dump_positions, encoding=options.encoding)
 
-    r = SrcmlWrapper(options, xml, filename)
+    r = SrcmlWrapper(options, xml, filename, source_code)
     return r
 
 
-- 
2.43.0


From fc750e9a16b77c32e6b07079f87219d1fbaf3e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 12/33] fix: update the amalgamated header in one step, and
 include each header once

The destination was truncated before being rewritten, and a header reached via two
spellings of its path was included twice.
---
 src/codemanip/amalgamated_header.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/codemanip/amalgamated_header.py b/src/codemanip/amalgamated_header.py
index 528bb22..41075fa 100644
--- a/src/codemanip/amalgamated_header.py
+++ b/src/codemanip/amalgamated_header.py
@@ -4,6 +4,8 @@ import os
 from dataclasses import dataclass
 from sys import version_info
 
+from codemanip import code_utils
+
 
 @dataclass
 class AmalgamationOptions:
@@ -88,12 +90,7 @@ def _fwrite_content(filename: str, content: str) -> None:
         if old_content == content:
             return
 
-    if version_info[0] >= 3:
-        f = open(filename, "w", encoding="utf-8", errors="ignore")
-    else:
-        f = open(filename, "w")
-    f.write(content)
-    f.close()
+    code_utils.replace_file_content(filename, content, newline=None)
 
 
 def _is_local_include_line(options: AmalgamationOptions, code_line: str) -> bool:
@@ -187,10 +184,12 @@ def _amalgamate_one_file(
     if not os.path.isfile(included_filename_full_path):
         raise FileNotFoundError(included_filename)
 
-    if included_filename_full_path in already_included_local_files:
+    # the same file may be reached via different paths ("./a.h", "sub/../a.h", symbolic links)
+    included_file_id = os.path.realpath(included_filename_full_path)
+    if included_file_id in already_included_local_files:
         return ""
 
-    already_included_local_files.append(included_filename_full_path)
+    already_included_local_files.append(included_file_id)
 
     included_filename_relative = included_filename.replace(options.base_dir + "/", "").replace(options.base_dir, "")
 
-- 
2.43.0


From ebb2624814e44e87690565ea5cbcfb138774d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 13/33] fix: pimpl_my_file checks both files before modifying
 any

and reads the C++ file with the encoding of the options instead of the locale's.
---
 src/codemanip/code_utils.py                         | 3 ++-
 src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 28f3155..0672f12 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -488,6 +488,7 @@ def write_generated_code_between_markers(
     marker_token: str,
     code_to_insert: str,
     flag_preserve_indentation: bool = True,
+    flag_check_only: bool = False,
 ) -> None:
     code_marker_in = f"<{marker_token}>"
     code_marker_out = f"</{marker_token}>"
@@ -552,7 +553,7 @@ def write_generated_code_between_markers(
             {__} !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!  AUTOGENERATED CODE END !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
         """)
         raise RuntimeError(msg)
-    if output_code != input_code:
+    if output_code != input_code and not flag_check_only:
         write_text_file(inout_filename, output_code)
 
 
diff --git a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
index f48e4ce..b7d2cbb 100644
--- a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
+++ b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
@@ -325,13 +325,18 @@ def pimpl_my_file(
         raise Exception(f"C++ file {cpp_filename} does not exist")
 
     # Read code from file
-    with open(cpp_filename, "r") as f:
+    encoding = "utf-8" if srcmlcpp_options is None else srcmlcpp_options.encoding
+    with open(cpp_filename, encoding=encoding) as f:
         code = f.read()
 
     pimpl_result = pimpl_my_code(code, pimpl_options, srcmlcpp_options)
     if pimpl_result is None:
         print("No PImpl class found!")
     else:
+        # check the markers of the header file before modifying the cpp file
+        code_utils.write_generated_code_between_markers(
+            header_filename, "pimpl_header_code", pimpl_result.header_code, flag_check_only=True
+        )
         code_utils.write_generated_code_between_markers(
             cpp_filename,
             "pimpl_glue_code",
-- 
2.43.0


From 7de1322b8b554748d07367720ae663e17c959533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 14/33] fix: validate bindings in a relative work_dir, and
 write its files as utf-8

pytest was run from work_dir with a path relative to the initial folder, so that the
validation failed for correct bindings.
---
 .../validate_bindings_compilation.py                  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
index ab9ec1e..69e7690 100644
--- a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
+++ b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
@@ -156,6 +156,7 @@ add_custom_command(TARGET {python_native_module_name}
     if work_dir is None:
         work_dir = tempfile.mkdtemp()
     else:
+        work_dir = os.path.abspath(work_dir)  # the steps below are run from different folders
         if not enable_hack_code:
             if os.path.exists(work_dir):
                 shutil.rmtree(work_dir)
@@ -169,21 +170,21 @@ add_custom_command(TARGET {python_native_module_name}
 
         # Write the full code to code.cpp
         if not enable_hack_code:
-            with open(code_cpp_path, "w") as f:
+            with open(code_cpp_path, "w", encoding="utf-8") as f:
                 f.write(full_code)
 
         # Write the CMake code to CMakeLists.txt
-        with open(cmake_lists_path, "w") as f:
+        with open(cmake_lists_path, "w", encoding="utf-8") as f:
             f.write(cmake_code)
 
         # Write stub files and initialize the module directory
         module_dir = os.path.join(work_dir, python_module_name)
         os.makedirs(module_dir, exist_ok=True)
         stub_file = os.path.join(module_dir, "__init__.pyi")
-        with open(stub_file, "w") as f:
+        with open(stub_file, "w", encoding="utf-8") as f:
             f.write(generated_code.stub_code)
         init_file = os.path.join(module_dir, "__init__.py")
-        with open(init_file, "w") as f:
+        with open(init_file, "w", encoding="utf-8") as f:
             # Import everything from the native submodule
             f.write(f"from {python_native_module_name} import *")
 
@@ -248,7 +249,7 @@ add_custom_command(TARGET {python_native_module_name}
             # Write test code to a test file
             test_file_name = "run_validate_bindings_compilation.py"
             test_file_path = os.path.join(work_dir, test_file_name)
-            with open(test_file_path, "w") as f:
+            with open(test_file_path, "w", encoding="utf-8") as f:
                 f.write(code_utils.unindent_code(python_test_code))
 
             # Run pytest on the test file
-- 
2.43.0


From bc2494733aae7e806851571688dd3f5322701aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 15/33] fix: a validation step that prints undecodable output
 has not failed

---
 .../validate_bindings_compilation.py                           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
index 69e7690..3e01419 100644
--- a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
+++ b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
@@ -199,6 +199,7 @@ add_custom_command(TARGET {python_native_module_name}
                 stdout=subprocess.PIPE,
                 stderr=subprocess.PIPE,
                 text=True,
+                errors="replace",
             )
         except Exception as e:
             raise RuntimeError("Error running CMake configure") from e
@@ -225,6 +226,7 @@ add_custom_command(TARGET {python_native_module_name}
                 stdout=subprocess.PIPE,
                 stderr=subprocess.PIPE,
                 text=True,
+                errors="replace",
             )
         except Exception as e:
             raise RuntimeError("Error running CMake build") from e
@@ -260,6 +262,7 @@ add_custom_command(TARGET {python_native_module_name}
                     stdout=subprocess.PIPE,
                     stderr=subprocess.PIPE,
                     text=True,
+                errors="replace",
                 )
             except Exception as e:
                 raise RuntimeError("Error running pytest") from e
-- 
2.43.0


From d4dd55c19224536af7103893616ab6f658183089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 16/33] fix: parse headers in other encodings without decoding
 them twice

---
 src/srcmlcpp/internal/code_to_srcml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/srcmlcpp/internal/code_to_srcml.py b/src/srcmlcpp/internal/code_to_srcml.py
index f1d7085..803913e 100644
--- a/src/srcmlcpp/internal/code_to_srcml.py
+++ b/src/srcmlcpp/internal/code_to_srcml.py
@@ -119,11 +119,12 @@ class _SrcmlCaller:
         return code_str
 
     def _make_xml_str_by_module(self, input_str: str, encoding: str, dump_positions: bool = False) -> str:
+        # (input_str was already decoded, and strings are handed over to the native module as utf-8)
         r = srcml_nativecaller.to_srcml(  # type: ignore
             code=input_str,
             language=srcml_nativecaller.CodeLanguage.c_plus_plus,  # type: ignore
-            encoding_src=encoding,
-            encoding_xml=encoding,
+            encoding_src="utf-8",
+            encoding_xml="utf-8",
             include_positions=dump_positions,
         )  # type: ignore  # noqa: F821
         assert r is not None
@@ -142,7 +143,7 @@ class _SrcmlCaller:
     def _make_cpp_str_by_module(self, input_str: str, encoding: str) -> str:
         import srcml_caller as srcml_nativecaller
 
-        r: Optional[str] = srcml_nativecaller.to_code(xml_str=input_str, encoding_xml=encoding, encoding_src=encoding)  # type: ignore
+        r: Optional[str] = srcml_nativecaller.to_code(xml_str=input_str, encoding_xml="utf-8", encoding_src="utf-8")  # type: ignore
         assert r is not None
         return r
 
-- 
2.43.0


From 7e25457183ace09455df0d7dcd82f7e38d1d9b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 17/33] fix: progress bars may be used from several threads

---
 src/codemanip/parse_progress_bar.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/codemanip/parse_progress_bar.py b/src/codemanip/parse_progress_bar.py
index 66c732a..ef6f911 100644
--- a/src/codemanip/parse_progress_bar.py
+++ b/src/codemanip/parse_progress_bar.py
@@ -66,24 +66,22 @@ class ParseProgressBars:
     def stop_progress_bar(self, step_name: str) -> None:
         if not self._enabled:
             return
-        # assert step_name in self._progress_bars
-        if step_name not in self._progress_bars:
+        # (several threads may be parsing: do not assume that the bar is still there after having looked)
+        progress_bar = self._progress_bars.pop(step_name, None)
+        if progress_bar is None:
             import logging
 
             logging.warning(f"stop_progress_bar: step_name not in self._progress_bars --> {step_name}")
             return
-        self._progress_bars[step_name].stop()
-        self._progress_bars.pop(step_name)
+        progress_bar.stop()
 
     def set_current_line(self, step_name: str, current_line: int) -> None:
         if not self._enabled:
             return
-        if step_name not in self._progress_bars:
-            return
-        assert step_name in self._progress_bars
-        if step_name in self._progress_bars:
+        progress_bar = self._progress_bars.get(step_name)
+        if progress_bar is not None:
             # -1 because srcml numbering starts at 1
-            self._progress_bars[step_name].set_current_line(current_line - 1)
+            progress_bar.set_current_line(current_line - 1)
 
 
 _PARSE_PROGRESS_BARS = ParseProgressBars()
-- 
2.43.0


From 5f346677af0f34715816b1c9da93c4fde1d151a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 18/33] fix: convert names to snake case from several threads

---
 src/codemanip/code_utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 0672f12..f00c0f3 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -245,15 +245,16 @@ def add_item_before_cpp_comment(code: str, item: str) -> str:
     return r
 
 
+_SNAKE_CASE_RE1 = re.compile("(.)([A-Z][a-z]+)")
+_SNAKE_CASE_RE2 = re.compile("__([A-Z])")
+_SNAKE_CASE_RE3 = re.compile("([a-z0-9])([A-Z])")
+
+
 def to_snake_case(name: str) -> str:
-    if "re1" not in to_snake_case.__dict__:
-        to_snake_case.re1 = re.compile("(.)([A-Z][a-z]+)")  # type: ignore
-        to_snake_case.re2 = re.compile("__([A-Z])")  # type: ignore
-        to_snake_case.re3 = re.compile("([a-z0-9])([A-Z])")  # type: ignore
-
-    name = to_snake_case.re1.sub(r"\1_\2", name)  # type: ignore
-    name = to_snake_case.re2.sub(r"_\1", name)  # type: ignore
-    name = to_snake_case.re3.sub(r"\1_\2", name)  # type: ignore
+    # (the patterns must be complete before any thread can use them)
+    name = _SNAKE_CASE_RE1.sub(r"\1_\2", name)
+    name = _SNAKE_CASE_RE2.sub(r"_\1", name)
+    name = _SNAKE_CASE_RE3.sub(r"\1_\2", name)
 
     # name = re.sub('(.)([A-Z][a-z]+)', r'\1_\2', name)
     # name = re.sub('__([A-Z])', r'_\1', name)
-- 
2.43.0


From 382a70d1c9d7191f93d05db8bd4b62c8f68193dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 19/33] fix: show the positions of an xml tree whatever was
 shown before

---
 src/srcmlcpp/internal/srcml_utils.py | 54 ++++++++++++++--------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/srcmlcpp/internal/srcml_utils.py b/src/srcmlcpp/internal/srcml_utils.py
index 61405d1..5c818c6 100644
--- a/src/srcmlcpp/internal/srcml_utils.py
+++ b/src/srcmlcpp/internal/srcml_utils.py
@@ -108,43 +108,41 @@ def _extract_interesting_tail(element: ET.Element) -> str:
     return text
 
 
-_PREVIOUS_INFO_POSITION = ""
-
-
 def _info_element_position(element: ET.Element) -> str:
-    global _PREVIOUS_INFO_POSITION
     start, end = element_start_position(element), element_end_position(element)
     if start is None or end is None:
         return ""
     if start.line == end.line:
-        r = f"line  {start.line}"
+        return f"line  {start.line}"
     else:
-        r = f"lines {start.line}-{end.line}"
-
-    if r != _PREVIOUS_INFO_POSITION:
-        _PREVIOUS_INFO_POSITION = r
-        return r
-    else:
-        return ""
+        return f"lines {start.line}-{end.line}"
 
 
 def srcml_to_str_readable(srcml_element: ET.Element, level: int = 0) -> str:
-    indent_str = "    " * level
-
-    msg: str
-    msg = indent_str + clean_tag_or_attrib(srcml_element.tag)
-    text = _extract_interesting_text(srcml_element)
-    if len(text) > 0:
-        msg += f' text="{text}"'
-
-    info_position = _info_element_position(srcml_element)
-    if len(info_position) > 0:
-        msg += " " * (60 - len(msg)) + info_position
-    msg += "\n"
-
-    for child in srcml_element:
-        msg += srcml_to_str_readable(child, level + 1)
-    return msg
+    # An element whose position is the one that was last displayed does not repeat it
+    displayed_position = ""
+
+    def to_str(element: ET.Element, element_level: int) -> str:
+        nonlocal displayed_position
+        indent_str = "    " * element_level
+
+        msg: str
+        msg = indent_str + clean_tag_or_attrib(element.tag)
+        text = _extract_interesting_text(element)
+        if len(text) > 0:
+            msg += f' text="{text}"'
+
+        info_position = _info_element_position(element)
+        if len(info_position) > 0 and info_position != displayed_position:
+            displayed_position = info_position
+            msg += " " * (60 - len(msg)) + info_position
+        msg += "\n"
+
+        for child in element:
+            msg += to_str(child, element_level + 1)
+        return msg
+
+    return to_str(srcml_element, level)
 
 
 def check_for_file_in_current_hierarchy(filename: str) -> bool:
-- 
2.43.0


From 44bc2442974bbed96d657a0f9b571135866d6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 20/33] fix: qualified types of a declaration depend on the
 scope they are asked for

---
 .../cpp_types/decls_types/cpp_decl.py         | 19 +++++++++++--------
 .../cpp_types/scope/scoped_element_cache.py   |  5 +++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
index 83cdc02..69d6077 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
@@ -12,6 +12,7 @@ from srcmlcpp.cpp_types.base import (
     CppElementComments,
 )
 from srcmlcpp.cpp_types.scope.cpp_scope import CppScope
+from srcmlcpp.cpp_types.scope.scoped_element_cache import ScopedElementCache
 from srcmlcpp.cpp_types.decls_types.cpp_type import CppType
 from srcmlcpp.cpp_types.template.cpp_template_specialization import CppTemplateSpecialization
 from srcmlcpp.srcmlcpp_options import (
@@ -44,7 +45,7 @@ class CppDecl(CppElementAndComment):
 
     _cpp_type: CppType
 
-    _cpp_decl_with_qualified_types: CppDecl
+    _cache_with_qualified_types: ScopedElementCache
 
     # decl_name, i.e. the variable name
     decl_name: str = ""
@@ -83,6 +84,7 @@ class CppDecl(CppElementAndComment):
 
     def __init__(self, element: SrcmlWrapper, cpp_element_comments: CppElementComments) -> None:
         super().__init__(element, cpp_element_comments)
+        self._cache_with_qualified_types = ScopedElementCache()
 
     def name(self) -> str:
         return self.decl_name
@@ -299,11 +301,13 @@ class CppDecl(CppElementAndComment):
                             int _f3 = N1::N3::f3()
                             int other = N1::N4::f4()
         """
-        if hasattr(self, "_cpp_decl_with_qualified_types"):
-            return self._cpp_decl_with_qualified_types
-
         if current_scope is None:
             current_scope = self.cpp_scope()
+        if self._cache_with_qualified_types.contains(current_scope):
+            r = self._cache_with_qualified_types.get(current_scope)
+            assert isinstance(r, CppDecl)
+            return r
+
         was_changed = False
         new_decl_cpp_type = self.cpp_type
         if hasattr(self, "cpp_type"):
@@ -315,14 +319,13 @@ class CppDecl(CppElementAndComment):
         if new_initial_value_code != self.initial_value_code:
             was_changed = True
 
+        new_decl = self
         if was_changed:
             new_decl = copy.deepcopy(self)
             new_decl.cpp_type = new_decl_cpp_type
             new_decl.initial_value_code = new_initial_value_code
-            self._cpp_decl_with_qualified_types = new_decl
-        else:
-            self._cpp_decl_with_qualified_types = self
-        return self._cpp_decl_with_qualified_types
+        self._cache_with_qualified_types.store(current_scope, new_decl)
+        return new_decl
 
     def _initial_value_code_with_terse_type(self, current_scope: CppScope | None) -> str:
         """Returns a terse version of the initial value (with only the required scoping)
diff --git a/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py b/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py
index 60216bc..153c406 100644
--- a/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py
+++ b/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py
@@ -16,6 +16,11 @@ class ScopedElementCache:
     def __init__(self) -> None:
         self._cache = {}
 
+    def __deepcopy__(self, memo=None):
+        """The copy of an element starts with an empty cache: an element is copied in order to be modified
+        (for example, in order to specialize a template), and the cached versions would not follow."""
+        return ScopedElementCache()
+
     def contains(self, cpp_scope: CppScope) -> bool:
         r = cpp_scope.str_cpp in self._cache.keys()
         return r
-- 
2.43.0


From 52709e8785e8580c6a4d3347e64b4bd450b5aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 21/33] fix: qualifying types leaves the elements of the
 original in place

---
 src/srcmlcpp/cpp_types/decls_types/cpp_decl.py         | 4 ++++
 src/srcmlcpp/cpp_types/functions/cpp_function_decl.py  | 8 ++++++++
 src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py | 4 ++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
index 69d6077..0530d0b 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
@@ -322,6 +322,8 @@ class CppDecl(CppElementAndComment):
         new_decl = self
         if was_changed:
             new_decl = copy.deepcopy(self)
+            if new_decl_cpp_type is self._cpp_type:  # (which stays in self)
+                new_decl_cpp_type = new_decl.cpp_type
             new_decl.cpp_type = new_decl_cpp_type
             new_decl.initial_value_code = new_initial_value_code
         self._cache_with_qualified_types.store(current_scope, new_decl)
@@ -372,6 +374,8 @@ class CppDecl(CppElementAndComment):
 
         if was_changed:
             new_decl = copy.deepcopy(self)
+            if new_cpp_type is self._cpp_type:  # (which stays in self)
+                new_cpp_type = new_decl.cpp_type
             new_decl.cpp_type = new_cpp_type
             new_decl.initial_value_code = new_initial_value_code
             return new_decl
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index 674f0eb..72a5599 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -200,7 +200,11 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         if was_changed:
             r = copy.deepcopy(self)
             if new_return_type is not None:
+                if new_return_type is self.return_type:  # (which stays in self)
+                    new_return_type = r.return_type
                 r.return_type = new_return_type
+            if new_parameter_list is self.parameter_list:  # (which stays in self)
+                new_parameter_list = r.parameter_list
             r.parameter_list = new_parameter_list
 
         self._cache_with_qualified_types.store(current_scope, r)
@@ -248,7 +252,11 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         if was_changed:
             r = copy.deepcopy(self)
             if new_return_type is not None:
+                if new_return_type is self.return_type:  # (which stays in self)
+                    new_return_type = r.return_type
                 r.return_type = new_return_type
+            if new_parameter_list is self.parameter_list:  # (which stays in self)
+                new_parameter_list = r.parameter_list
             r.parameter_list = new_parameter_list
         self._cache_with_terse_types.store(current_scope, r)
         return r
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py b/src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py
index fc050ae..f403d6e 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py
@@ -116,7 +116,7 @@ class CppParameterList(CppElementAndComment):
                     new_parameters.append(new_param)
                     was_changed = True
                 else:
-                    new_parameters.append(self_param)
+                    new_parameters.append(copy.deepcopy(self_param))
 
         if was_changed:
             r = copy.deepcopy(self)
@@ -140,7 +140,7 @@ class CppParameterList(CppElementAndComment):
                 new_parameter.decl = new_decl
                 new_parameters.append(new_parameter)
             else:
-                new_parameters.append(self_param)
+                new_parameters.append(copy.deepcopy(self_param))
 
         if was_changed:
             new_parameter_list = copy.deepcopy(self)
-- 
2.43.0


From 66daba7cf98ca4a44e946f02508af1c92ab55922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 22/33] fix: qualifying the parameters of a function does not
 move remembered declarations

---
 src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py b/src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py
index f403d6e..822dc8b 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_parameter_list.py
@@ -112,7 +112,7 @@ class CppParameterList(CppElementAndComment):
                 new_param_decl = self_param.decl.with_qualified_types(current_scope)
                 if new_param_decl is not self_param.decl:
                     new_param = copy.deepcopy(self.parameters[i])
-                    new_param.decl = new_param_decl
+                    new_param.decl = copy.deepcopy(new_param_decl)  # (the decl keeps new_param_decl in its cache)
                     new_parameters.append(new_param)
                     was_changed = True
                 else:
-- 
2.43.0


From 1c7216433a11f0027d1d0b2cf44847ceb20a6999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 23/33] fix: qualify the names of a scope in one pass

The names were replaced one after the other, in an order that depended on
PYTHONHASHSEED for names of equal length: when a scope has a member with its
own name, the prefix added for another member was, or was not, qualified again.
---
 src/litgen/internal/cpp_to_python.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 5dd88aa..493b5b1 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -312,14 +312,13 @@ def qualify_sibling_in_scope(
             continue
         python_prefix = scope_entry.python_scope_name
         names = scope_entry.member_names
+        if not names:
+            continue
 
-        # Sort by length (longest first) to avoid partial replacements
-        for name in sorted(names, key=len, reverse=True):
-            # Match `name` as a standalone word, not already preceded by a dot
-            # (which would mean it's already qualified)
-            pattern = r"(?<![.\w])" + re.escape(name) + r"\b"
-            replacement = python_prefix + "." + name
-            python_str = re.sub(pattern, replacement, python_str)
+        # Match any name as a standalone word, not already preceded by a dot (which would mean it's already qualified).
+        # All names are replaced in one pass: the prefix that is added may itself be one of the names.
+        pattern = r"(?<![.\w])(" + "|".join(re.escape(name) for name in sorted(names)) + r")\b"
+        python_str = re.sub(pattern, lambda match: python_prefix + "." + match.group(1), python_str)
 
     return python_str
 
-- 
2.43.0


From 21cf47e613d8a7006108f637d574afda4b024d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 24/33] fix: amalgamate headers that begin with a byte order
 mark

---
 src/codemanip/amalgamated_header.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codemanip/amalgamated_header.py b/src/codemanip/amalgamated_header.py
index 41075fa..f622980 100644
--- a/src/codemanip/amalgamated_header.py
+++ b/src/codemanip/amalgamated_header.py
@@ -62,7 +62,8 @@ def _fread_lines(filename: str) -> list[str]:
     Python 2 & 3 agnostic fopen + readlines
     """
     if version_info[0] >= 3:
-        f = open(filename, encoding="utf-8", errors="ignore")
+        # utf-8-sig: a byte order mark is not a part of the first line
+        f = open(filename, encoding="utf-8-sig", errors="ignore")
     else:
         f = open(filename)
     return f.readlines()
-- 
2.43.0


From 864d6e8b02de9e9c9da9c12bea478f6699337858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 25/33] fix: keep the lines that only mention #pragma once in
 the amalgamation

---
 src/codemanip/amalgamated_header.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codemanip/amalgamated_header.py b/src/codemanip/amalgamated_header.py
index f622980..a005ffe 100644
--- a/src/codemanip/amalgamated_header.py
+++ b/src/codemanip/amalgamated_header.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 from __future__ import annotations
 import os
+import re
 from dataclasses import dataclass
 from sys import version_info
 
@@ -228,7 +229,7 @@ def _amalgamate_one_file(
                 parsed_result = parsed_result + include_addition
                 was_file_interrupted_by_include = True
         else:
-            if "#pragma once" not in code_line:
+            if not re.match(r"\s*#\s*pragma\s+once\b", code_line):
                 parsed_result = parsed_result + code_line
 
     is_code_composed_of_only_blank_lines = True
-- 
2.43.0


From e939e24eb30b311a746eb73ae70d2076714b175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 26/33] fix: recognise include directives that are spelled
 otherwise, or followed by a comment

---
 src/codemanip/amalgamated_header.py | 31 ++++++++++++-----------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/codemanip/amalgamated_header.py b/src/codemanip/amalgamated_header.py
index a005ffe..97fc66c 100644
--- a/src/codemanip/amalgamated_header.py
+++ b/src/codemanip/amalgamated_header.py
@@ -95,26 +95,25 @@ def _fwrite_content(filename: str, content: str) -> None:
     code_utils.replace_file_content(filename, content, newline=None)
 
 
+# An include directive, as in `#include "file"`, `# include <file>`, `#include"file" // comment`
+_INCLUDE_REGEX = re.compile(r'\s*#\s*include\s*(?P<delimiter>["<])(?P<file>[^">]*)[">]')
+
+
 def _is_local_include_line(options: AmalgamationOptions, code_line: str) -> bool:
     """
     Tests whether a C++ code line is a local include statement
     (i.e this will *exclude* lines like "#include <vector>")
     """
-    _code_line = code_line.strip()
-
-    if _code_line.startswith(f'#include "{options.local_includes_startwith}'):
-        return True
-    if not options.only_quoted_includes_are_local and _code_line.startswith(
-        f"#include <{options.local_includes_startwith}"
-    ):
-        return True
-    return False
+    include = _INCLUDE_REGEX.match(code_line)
+    if include is None or not include["file"].startswith(options.local_includes_startwith):
+        return False
+    return include["delimiter"] == '"' or not options.only_quoted_includes_are_local
 
 
 def _is_external_include_line(options: AmalgamationOptions, code_line: str) -> bool:
     _code_line = code_line.strip()
 
-    if not _code_line.startswith("#include "):
+    if not _code_line.startswith("#include ") and _INCLUDE_REGEX.match(_code_line) is None:
         return False
     if _is_local_include_line(options, _code_line):
         return False
@@ -126,19 +125,15 @@ def _extract_local_include_file(code_line: str) -> str:
     Extracts the included file path from an include statement
     (handles both `#include "file"` and `#include <file>`)
     """
-    _code_line = code_line.strip()
-
-    result = _code_line.replace('#include "', "").replace("#include <", "").replace('"', "").replace(">", "")
-    # possible_include_paths = [ 'immvision/', 'immdebug/']
-    # for possible_include_path in possible_include_paths:
-    #     result = result.replace(possible_include_path, "")
-    return result
+    include = _INCLUDE_REGEX.match(code_line)
+    assert include is not None
+    return include["file"]
 
 
 def _extract_external_include_file(code_line: str) -> str:
     _code_line = code_line.strip()
 
-    result: str = _code_line.replace("#include ", "")
+    result: str = re.sub(r"^#\s*include\s*", "", _code_line)
     if "#" in result:
         result = result[: result.index("#")]
     return result
-- 
2.43.0


From e9eb3599b875e31902e1ad83c1597b1ed191e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 27/33] fix: the demo does not change the bind library of the
 user's options

---
 src/litgen/demo/litgen_demo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/litgen/demo/litgen_demo.py b/src/litgen/demo/litgen_demo.py
index 96cec8e..6ec7115 100644
--- a/src/litgen/demo/litgen_demo.py
+++ b/src/litgen/demo/litgen_demo.py
@@ -1,4 +1,6 @@
 from __future__ import annotations
+import copy
+
 from IPython.core.display import HTML  # type: ignore
 
 from codemanip.html_code_viewer.html_code_viewer import (
@@ -19,6 +21,9 @@ from litgen import LitgenOptions
 def _generate_and_display_impl(
     options: LitgenOptions, cpp_code: str, show_cpp: bool, show_pydef: bool, height: int
 ) -> str:
+    # The bind library is set below: this shall not change the options of the user
+    options = copy.copy(options)
+
     # First generate the code for pybind11
     options.bind_library = litgen.BindLibraryType.pybind11
     generated_codes = litgen.generate_code(options, cpp_code)
-- 
2.43.0


From 68a5806678813a068ce910d35528fce474a4617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 28/33] fix: the code viewer reads files as utf-8, whatever the
 locale

---
 src/codemanip/html_code_viewer/html_code_viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codemanip/html_code_viewer/html_code_viewer.py b/src/codemanip/html_code_viewer/html_code_viewer.py
index cd2dc00..74f78ea 100644
--- a/src/codemanip/html_code_viewer/html_code_viewer.py
+++ b/src/codemanip/html_code_viewer/html_code_viewer.py
@@ -242,7 +242,7 @@ def show_cpp_file(
 ) -> None:
     if title is None:
         title = cpp_filename
-    with open(cpp_filename, "r") as f:
+    with open(cpp_filename, "r", encoding="utf-8") as f:
         code = f.read()
         show_cpp_code(code, title=title, max_visible_lines=max_visible_lines, initially_opened=initially_opened)
 
@@ -255,6 +255,6 @@ def show_python_file(
 ) -> None:
     if title is None:
         title = python_filename
-    with open(python_filename, "r") as f:
+    with open(python_filename, "r", encoding="utf-8") as f:
         code = f.read()
         show_python_code(code, title=title, max_visible_lines=max_visible_lines, initially_opened=initially_opened)
-- 
2.43.0


From 45316adc978836661265c3dd397761f9297c6a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 29/33] fix: a code viewer without maximum height opens at the
 height of its own content

---
 src/codemanip/html_code_viewer/html_code_viewer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codemanip/html_code_viewer/html_code_viewer.py b/src/codemanip/html_code_viewer/html_code_viewer.py
index 74f78ea..f665937 100644
--- a/src/codemanip/html_code_viewer/html_code_viewer.py
+++ b/src/codemanip/html_code_viewer/html_code_viewer.py
@@ -163,11 +163,11 @@ def collapsible_code_and_title(
     var button = document.getElementById("{collapsible_header_id}");
     button.addEventListener("click", function() {{
         this.classList.toggle("collapsible_header_opened");
-        var content = document.getElementById("{collapsible_content_id}");
-        if (content.style.maxHeight){{
-          content.style.maxHeight = null;
+        var collapsible_content = document.getElementById("{collapsible_content_id}");
+        if (collapsible_content.style.maxHeight){{
+          collapsible_content.style.maxHeight = null;
         }} else {{
-          content.style.maxHeight = {max_height_code};
+          collapsible_content.style.maxHeight = {max_height_code};
         }}
     }});
     </script>
-- 
2.43.0


From fdf480338036bd2b69133831f38743d58e75457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:09 +0000
Subject: [PATCH 30/33] fix: the copy button of the code viewer keeps the
 backslashes

---
 src/codemanip/html_code_viewer/html_code_viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codemanip/html_code_viewer/html_code_viewer.py b/src/codemanip/html_code_viewer/html_code_viewer.py
index f665937..6f2a8e2 100644
--- a/src/codemanip/html_code_viewer/html_code_viewer.py
+++ b/src/codemanip/html_code_viewer/html_code_viewer.py
@@ -134,7 +134,7 @@ def collapsible_code_and_title(
     _ID_COUNTER += 1
 
     copyable_code = code_and_title.code
-    copyable_code = copyable_code.replace("`", r"\`").replace("$", r"\$")
+    copyable_code = copyable_code.replace("\\", "\\\\").replace("`", r"\`").replace("$", r"\$")
 
     r = COLLAPSIBLE_CSS
     r += f"""
-- 
2.43.0


From a5562db1a4031a9c60c4e13acca07bc0dcabae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 31/33] fix: the code viewers have distinct ids and copy
 functions, whatever the clock

---
 src/codemanip/html_code_viewer/html_code_viewer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/codemanip/html_code_viewer/html_code_viewer.py b/src/codemanip/html_code_viewer/html_code_viewer.py
index 6f2a8e2..1e1b15b 100644
--- a/src/codemanip/html_code_viewer/html_code_viewer.py
+++ b/src/codemanip/html_code_viewer/html_code_viewer.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import itertools
 import time
 from dataclasses import dataclass
 from enum import Enum
@@ -114,24 +115,22 @@ HALF_WIDTH_DIVS_CSS = """
 """
 
 
-_ID_COUNTER = 0
+_ID_COUNTER = itertools.count()
 
 
 def collapsible_code_and_title(
     code_and_title: CodeAndTitle, max_visible_lines: Optional[int] = None, initially_opened: bool = False
 ) -> HtmlCode:
-    global _ID_COUNTER
-
     code_as_html: str
     if code_and_title.code_language == CodeLanguage.Python:
         code_as_html = html_python_code_viewer(code_and_title.code)
     else:
         code_as_html = html_cpp_code_viewer(code_and_title.code)
 
-    time_id = str(time.time() * 1000).replace(".", "_")
-    collapsible_header_id = "btn_" + time_id + "_" + str(_ID_COUNTER)
-    collapsible_content_id = "content_" + time_id + "_" + str(_ID_COUNTER)
-    _ID_COUNTER += 1
+    # The counter makes the ids unique, even if the clock does not advance between two viewers
+    time_id = str(time.time() * 1000).replace(".", "_") + "_" + str(next(_ID_COUNTER))
+    collapsible_header_id = "btn_" + time_id
+    collapsible_content_id = "content_" + time_id
 
     copyable_code = code_and_title.code
     copyable_code = copyable_code.replace("\\", "\\\\").replace("`", r"\`").replace("$", r"\$")
-- 
2.43.0


From 2d792873895082922ddd8874bd0299057d0b0e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 32/33] fix: code which mentions the script tag does not break
 the code viewer

---
 src/codemanip/html_code_viewer/html_code_viewer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codemanip/html_code_viewer/html_code_viewer.py b/src/codemanip/html_code_viewer/html_code_viewer.py
index 1e1b15b..96d7708 100644
--- a/src/codemanip/html_code_viewer/html_code_viewer.py
+++ b/src/codemanip/html_code_viewer/html_code_viewer.py
@@ -134,6 +134,8 @@ def collapsible_code_and_title(
 
     copyable_code = code_and_title.code
     copyable_code = copyable_code.replace("\\", "\\\\").replace("`", r"\`").replace("$", r"\$")
+    # "</script>" and "<!--" in the code would end, or comment out, the script below
+    copyable_code = copyable_code.replace("</", r"<\/").replace("<!--", r"<\!--")
 
     r = COLLAPSIBLE_CSS
     r += f"""
-- 
2.43.0


From b954d674cd5cb49d2fe467e4e51e194af4459917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 33/33] fix: showing the logs of a validation does not make it
 fail, whatever the locale

---
 .../validate_bindings_compilation.py                        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
index 3e01419..cc0d864 100644
--- a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
+++ b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
@@ -199,7 +199,7 @@ add_custom_command(TARGET {python_native_module_name}
                 stdout=subprocess.PIPE,
                 stderr=subprocess.PIPE,
                 text=True,
-                errors="replace",
+                errors="backslashreplace",
             )
         except Exception as e:
             raise RuntimeError("Error running CMake configure") from e
@@ -226,7 +226,7 @@ add_custom_command(TARGET {python_native_module_name}
                 stdout=subprocess.PIPE,
                 stderr=subprocess.PIPE,
                 text=True,
-                errors="replace",
+                errors="backslashreplace",
             )
         except Exception as e:
             raise RuntimeError("Error running CMake build") from e
@@ -262,7 +262,7 @@ add_custom_command(TARGET {python_native_module_name}
                     stdout=subprocess.PIPE,
                     stderr=subprocess.PIPE,
                     text=True,
-                errors="replace",
+                    errors="backslashreplace",
                 )
             except Exception as e:
                 raise RuntimeError("Error running pytest") from e
-- 
2.43.0

