From d8d0221565551336ed3b8d120d6384504bf4f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 01/68] fix: Counted parser returned an advanced location for a
 non-match

When fewer than the required number of repetitions matched, Counted returned
the location after the last successful repetition together with None, so that
e.g. Option(Counted(A, (3, 3))) silently skipped the repetitions already read.
---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0753432..f5f1873 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -3900,14 +3900,15 @@ class Counted(UnaryParser):
         copy_combined_parser_attrs(self, duplicate)
         return duplicate
 
-    @cython.locals(location_=cython.int)
+    @cython.locals(start_location=cython.int, location_=cython.int)
     def _parse(self, location: cython.int):
         results: Tuple[Node, ...] = ()
+        start_location = location
         location_ = location
         for _ in range(self.repetitions[0]):
             node, location = self.parser(location)
             if node is None:
-                return None, location_
+                return None, start_location
             if node._result or node.name[0] != ':':
                 results += (node,)
             if location_ >= location:
-- 
2.43.0


From 9584312ed3ca1957ec785f1bd425e629227a0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 02/68] fix: first parse after static analysis used stale
 memoized results

---
 DHParser/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index f5f1873..43eba67 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2425,6 +2425,9 @@ class Grammar:
             return result
 
         self.fill_associated_symbol_cache__()
+        # parsers may be run (on the empty text) during the static analysis and
+        # will then have to be reset before the first document is parsed
+        self._dirty_flag__ = True
         # cache = dict()  # type: Dict[Parser, MutableSet[Parser]]
         # for debugging: all_parsers = sorted(list(self.all_parsers__), key=lambda p:p.pname)
         for parser in self.all_parsers__:
-- 
2.43.0


From 6ed916f4a967f8aae6f73f94391dadd585e04692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 03/68] fix: cancelled or aborted parsing with captured
 variables raised RuntimeError

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 43eba67..e83b3c8 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2042,13 +2042,13 @@ class Grammar:
                 result, location = parser(location)
             except ParserError as pe:
                 result, location = pe.node, L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
                 self.tree__.new_error(
                     result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
                 location = L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
                 result = Node(EMPTY_PTYPE, '').with_pos(0)
 
-- 
2.43.0


From 71dd285edd7c0646d0ceae5e8d4ab95927ab3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 04/68] fix: instantiating a grammar class twice changed the
 resume rules of the first instance

---
 DHParser/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index e83b3c8..0423669 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1798,9 +1798,13 @@ class Grammar:
         self.unconnected_parsers__: MutableSet[Parser] = set()
         self.resume_parsers__: MutableSet[Parser] = set()
         resume_lists = []
+        # copy the rules, because parsers inside the lists will be replaced by this
+        # instance's own copy of the parser
         if hasattr(self, 'resume_rules__'):
+            self.resume_rules__ = {sym: list(l) for sym, l in self.resume_rules__.items()}
             resume_lists.extend(self.resume_rules__.values())
         if hasattr(self, 'skip_rules__'):
+            self.skip_rules__ = {sym: list(l) for sym, l in self.skip_rules__.items()}
             resume_lists.extend(self.skip_rules__.values())
         for l in resume_lists:
             for i in range(len(l)):
-- 
2.43.0


From 06f9015f60cf97c0942a1224b19a9ad484eade22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 05/68] fix: errors in configuration data left the
 configuration presets locked

---
 DHParser/configuration.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 963ba4e..57a4596 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -275,18 +275,20 @@ def ingest_config_data(config, sources=''):
     configparser.ConfigParser-object."""
     errors = []
     access_presets()
-    for section in config.sections():
-        try:
-            if section.lower() == "dhparser":
-                for variable, value in config[section].items():
-                    set_preset_value(f"{variable}", eval(value))
-            else:
-                for variable, value in config[section].items():
-                    set_preset_value(f"{section}.{variable}", eval(value),
-                                     allow_new_key=True)
-        except ValueError as e:
-            errors.append(' '.join(e.args))
-    finalize_presets()
+    try:
+        for section in config.sections():
+            try:
+                if section.lower() == "dhparser":
+                    for variable, value in config[section].items():
+                        set_preset_value(f"{variable}", eval(value))
+                else:
+                    for variable, value in config[section].items():
+                        set_preset_value(f"{section}.{variable}", eval(value),
+                                         allow_new_key=True)
+            except ValueError as e:
+                errors.append(' '.join(e.args))
+    finally:
+        finalize_presets()
     if errors:
         sources = f' files: {sources}'
         raise ValueError(f"\n\nErrors found in configuration{sources}:\n\n"
@@ -458,10 +460,12 @@ def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
     """Returns a dictionary of all configuration entries that match
     `key_pattern`."""
     access_presets()
-    presets = get_preset_values(key_pattern)
-    for pattern in additional_patterns:
-        presets.update(get_preset_values(pattern))
-    finalize_presets()
+    try:
+        presets = get_preset_values(key_pattern)
+        for pattern in additional_patterns:
+            presets.update(get_preset_values(pattern))
+    finally:
+        finalize_presets()
     import fnmatch
     with get_access_lock():
         cfg = _config_dict()
-- 
2.43.0


From 216e3e360dd11dbbae02bef4543653769c59b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 06/68] fix: logging and syntax_variant stayed changed when
 compiling a grammar failed with an exception

---
 DHParser/dsl.py  | 26 ++++++++++++++++----------
 DHParser/ebnf.py |  6 ++++--
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 33912d3..fdd6e5e 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -165,11 +165,13 @@ def grammar_instance(grammar_representation) -> Tuple[Grammar, str]:
             messages = []            # type: List[Error]
         else:
             lg_dir = suspend_logging()
-            result, messages, _ = compile_source(
-                grammar_src, None,
-                get_ebnf_grammar(grammar_src), get_ebnf_transformer(), get_ebnf_compiler())
+            try:
+                result, messages, _ = compile_source(
+                    grammar_src, None,
+                    get_ebnf_grammar(grammar_src), get_ebnf_transformer(), get_ebnf_compiler())
+            finally:
+                resume_logging(lg_dir)
             parser_py = cast(str, result)
-            resume_logging(lg_dir)
         if has_errors(messages):
             raise DefinitionError(only_errors(messages), grammar_src)
         imports = DHPARSER_IMPORTS
@@ -412,10 +414,12 @@ def load_compiler_suite(compiler_suite: str) -> \
         # Assume source is an ebnf grammar.
         # Is there really any reasonable application case for this?
         lg_dir = suspend_logging()
-        compiler_py, messages, _ = compile_source(source, None, get_ebnf_grammar(),
-                                                  get_ebnf_transformer(),
-                                                  get_ebnf_compiler(compiler_suite, source))
-        resume_logging(lg_dir)
+        try:
+            compiler_py, messages, _ = compile_source(source, None, get_ebnf_grammar(),
+                                                      get_ebnf_transformer(),
+                                                      get_ebnf_compiler(compiler_suite, source))
+        finally:
+            resume_logging(lg_dir)
         if has_errors(messages):
             raise DefinitionError(only_errors(messages), source)
         preprocessor = get_ebnf_preprocessor
@@ -677,8 +681,10 @@ def recompile_grammar(ebnf_filename: str,
             syntax_variant = get_config_value('syntax_variant')
             if syntax_variant != 'heuristic':
                 set_config_value('syntax_variant', 'heuristic')
-                messages2 = compile_on_disk(ebnf_filename, parser_name)
-                set_config_value('syntax_variant', syntax_variant)
+                try:
+                    messages2 = compile_on_disk(ebnf_filename, parser_name)
+                finally:
+                    set_config_value('syntax_variant', syntax_variant)
                 if not has_errors(messages2):
                     messages = messages2
 
diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 8a000c7..27cd1ae 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -746,8 +746,10 @@ def parse_ebnf(ebnf: str, syntax_variant: str = 'dhparser') -> RootNode:
     configured_syntax_variant = get_config_value('syntax_variant')
     if syntax_variant != configured_syntax_variant:
         set_config_value('syntax_variant', syntax_variant)
-        root = get_ebnf_grammar()(ebnf)
-        set_config_value('syntax_variant', configured_syntax_variant)
+        try:
+            root = get_ebnf_grammar()(ebnf)
+        finally:
+            set_config_value('syntax_variant', configured_syntax_variant)
     else:
         root = get_ebnf_grammar()(ebnf)
     return root
-- 
2.43.0


From 6100dfc653686e9585d7610c5fdce04fd61da17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 07/68] fix: cancellation during error recovery turned history
 tracking off for good

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0423669..75c8dcd 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -436,7 +436,8 @@ def reentry_point(rest: StringView,
                     f"Error while searching re-entry point with parser {parser}: {pe}",
                     ERROR_WHILE_RECOVERING_FROM_ERROR)
                 _node, _text = None, ''
-            grammar.history_tracking__ = save
+            finally:
+                grammar.history_tracking__ = save
             if _node:
                 pos = len(rest) - len(_text)
                 if pos < closest_match:
-- 
2.43.0


From e971a781634f05372bf4dbddd864033682b22d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 08/68] fix: working directory, import path and configuration
 stayed changed after failed test-runs

---
 DHParser/testing.py | 248 +++++++++++++++++++++++---------------------
 1 file changed, 129 insertions(+), 119 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 6411b99..142d1a5 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -460,60 +460,62 @@ def get_report(test_unit, serializations: Dict[str, List[str]] = dict()) -> str:
     srl = { k: v[0] for k, v in serializations.items()}
     save = get_config_value('xml_attribute_error_handling')
     set_config_value('xml_attribute_error_handling', 'fix')
-    for parser_name, tests in test_unit.items():
-        if parser_name[-2:] == '__':
-            heading = parser_name[:-2]
-            report.append(f"{heading}\n{'=' * len(heading)}\n\n    "
-                + '\n    '.join(f"{k} = {repr(v)}" for k, v in tests.items()))
-            continue
-        heading = 'Test of parser: "%s"' % parser_name
-        report.append('\n\n%s\n%s' % (heading, '=' * len(heading)))
-        for test_name, test_code in tests.get('match', dict()).items():
-            heading = '\nMatch-test "%s"' % test_name
-            report.append('\n%s\n%s\n' % (heading, '-' * len(heading)))
-            report.append('### Test-code:\n')
-            report.append(indent(test_code))
-            error = tests.get('__err__', {}).get(test_name, "")
-            if error:
-                report.append('\n### Error:\n')
-                report.append(error)
-            ast = tests.get('__AST__', {}).get(test_name, None)
-            cst = tests.get('__CST__', {}).get(test_name, None)
-            if cst and (not ast or str(test_name).endswith('*')):
-                report.append('\n### CST\n')
-                report.append(indent(cst.serialize(srl.get('CST', 'CST'))))
-            if ast:
-                report.append('\n### AST\n')
-                report.append(indent(ast.serialize(srl.get('AST', 'AST'))))
-
-            compilation_stages = [key for key in tests
-                                  if key[:2] + key[-2:] == '____' and key not in
-                                  {'__AST__', '__CST__', '__err__', 'match', 'fail'}]
-            for stage in compilation_stages:
-                if test_name in tests[stage]:
-                    result = tests[stage][test_name]
-                    report.append(f'\n### {stage.strip("_")}\n')
-                    if isinstance(result, Node):
-                        result_str = cast(Node, result).serialize(
-                            srl.get(stage.strip('_'), srl.get('*', 'default')))
-                    else:
-                        result_str = str(result)
-                    report.append(indent(result_str))
-
-        for test_name, test_code in tests.get('fail', dict()).items():
-            heading = '\nFail-test "%s"' % test_name
-            report.append('\n%s\n%s\n' % (heading, '-' * len(heading)))
-            report.append('### Test-code:')
-            report.append(indent(test_code))
-            messages = tests.get('__msg__', {}).get(test_name, "")
-            if messages:
-                report.append('\n### Messages:\n')
-                report.append(messages)
-            error = tests.get('__err__', {}).get(test_name, "")
-            if error:
-                report.append('\n### Error:\n')
-                report.append(error)
-    set_config_value('xml_attribute_error_handling', save)
+    try:
+        for parser_name, tests in test_unit.items():
+            if parser_name[-2:] == '__':
+                heading = parser_name[:-2]
+                report.append(f"{heading}\n{'=' * len(heading)}\n\n    "
+                    + '\n    '.join(f"{k} = {repr(v)}" for k, v in tests.items()))
+                continue
+            heading = 'Test of parser: "%s"' % parser_name
+            report.append('\n\n%s\n%s' % (heading, '=' * len(heading)))
+            for test_name, test_code in tests.get('match', dict()).items():
+                heading = '\nMatch-test "%s"' % test_name
+                report.append('\n%s\n%s\n' % (heading, '-' * len(heading)))
+                report.append('### Test-code:\n')
+                report.append(indent(test_code))
+                error = tests.get('__err__', {}).get(test_name, "")
+                if error:
+                    report.append('\n### Error:\n')
+                    report.append(error)
+                ast = tests.get('__AST__', {}).get(test_name, None)
+                cst = tests.get('__CST__', {}).get(test_name, None)
+                if cst and (not ast or str(test_name).endswith('*')):
+                    report.append('\n### CST\n')
+                    report.append(indent(cst.serialize(srl.get('CST', 'CST'))))
+                if ast:
+                    report.append('\n### AST\n')
+                    report.append(indent(ast.serialize(srl.get('AST', 'AST'))))
+
+                compilation_stages = [key for key in tests
+                                      if key[:2] + key[-2:] == '____' and key not in
+                                      {'__AST__', '__CST__', '__err__', 'match', 'fail'}]
+                for stage in compilation_stages:
+                    if test_name in tests[stage]:
+                        result = tests[stage][test_name]
+                        report.append(f'\n### {stage.strip("_")}\n')
+                        if isinstance(result, Node):
+                            result_str = cast(Node, result).serialize(
+                                srl.get(stage.strip('_'), srl.get('*', 'default')))
+                        else:
+                            result_str = str(result)
+                        report.append(indent(result_str))
+
+            for test_name, test_code in tests.get('fail', dict()).items():
+                heading = '\nFail-test "%s"' % test_name
+                report.append('\n%s\n%s\n' % (heading, '-' * len(heading)))
+                report.append('### Test-code:')
+                report.append(indent(test_code))
+                messages = tests.get('__msg__', {}).get(test_name, "")
+                if messages:
+                    report.append('\n### Messages:\n')
+                    report.append(messages)
+                error = tests.get('__err__', {}).get(test_name, "")
+                if error:
+                    report.append('\n### Error:\n')
+                    report.append(error)
+    finally:
+        set_config_value('xml_attribute_error_handling', save)
     return '\n'.join(report)
 
 
@@ -1065,36 +1067,38 @@ def grammar_suite(directory, parser_factory, transformer_factory,
         print("\nScanning test-directory: " + directory)
     save_cwd = os.getcwd()
     os.chdir(directory)
-    if is_logging():
-        clear_logs()
-
-    tests = [fn for fn in sorted(os.listdir('.'))
-             if any(fnmatch.fnmatch(fn, pattern) for pattern in fn_patterns)]
-
-    assert tests, f"No pattern from {fn_patterns} matched any test in directory {os.getcwd()}"
-
-    with instantiate_executor(get_config_value('test_parallelization') and len(tests) > 1,
-                              PickMultiCoreExecutor) as pool:
-        results = []
-        for filename in tests:
-            parameters = (filename, parser_factory, transformer_factory,
-                          report, verbose, junctions, show, serializations,
-                          preprocessor_factory)
-            results.append(pool.submit(grammar_unit, *parameters))
-        done, not_done = concurrent.futures.wait(results)
-        assert not not_done, str(not_done)
-        for filename, err_future in zip(tests, results):
-            try:
-                errata = err_future.result()
-                if errata:
-                    all_errors[filename] = errata
-            except ValueError as e:
-                if not ignore_unknown_filetypes or str(e).find("Unknown") < 0:
+    try:
+        if is_logging():
+            clear_logs()
+
+        tests = [fn for fn in sorted(os.listdir('.'))
+                 if any(fnmatch.fnmatch(fn, pattern) for pattern in fn_patterns)]
+
+        assert tests, f"No pattern from {fn_patterns} matched any test in directory {os.getcwd()}"
+
+        with instantiate_executor(get_config_value('test_parallelization') and len(tests) > 1,
+                                  PickMultiCoreExecutor) as pool:
+            results = []
+            for filename in tests:
+                parameters = (filename, parser_factory, transformer_factory,
+                              report, verbose, junctions, show, serializations,
+                              preprocessor_factory)
+                results.append(pool.submit(grammar_unit, *parameters))
+            done, not_done = concurrent.futures.wait(results)
+            assert not not_done, str(not_done)
+            for filename, err_future in zip(tests, results):
+                try:
+                    errata = err_future.result()
+                    if errata:
+                        all_errors[filename] = errata
+                except ValueError as e:
+                    if not ignore_unknown_filetypes or str(e).find("Unknown") < 0:
+                        raise e
+                except AssertionError as e:
+                    e.args = ('When processing "%s":\n%s' % (filename, e.args[0]) if e.args else '',)
                     raise e
-            except AssertionError as e:
-                e.args = ('When processing "%s":\n%s' % (filename, e.args[0]) if e.args else '',)
-                raise e
-    os.chdir(save_cwd)
+    finally:
+        os.chdir(save_cwd)
     error_report = []
     err_N = 0
     if all_errors:
@@ -1212,24 +1216,26 @@ def create_test_templates(symbols_or_ebnf: Union[str, SymbolsDictType],
     if os.path.isdir(path):
         save = os.getcwd()
         os.chdir(path)
-        keys = reversed(list(symbols.keys()))
-        existing_tests = {fname[3:]: fname for fname in os.listdir() if os.path.isfile(fname)}
-        for i, k in enumerate(keys):
-            filename = '{num:0>2}_test_{section}'.format(num=i + 1, section=k) + fmt
-            if not os.path.exists(filename):
-                if filename[3:] in existing_tests:
-                    old_name = existing_tests[filename[3:]]
-                    print(f'Renaming test file "{old_name}" to "{filename}"')
-                    os.rename(old_name, filename)
-                    existing_tests[filename[3:]] = filename
-                elif k is not ALL_SYMBOLS or not existing_tests:
-                    print('Creating test file template "{name}".'.format(name=filename))
-                    with open(filename, 'w', encoding='utf-8') as f:
-                        for sym in symbols[k]:
-                            f.write('\n[match:{sym}]\n\n'.format(sym=sym))
-                            f.write('[ast:{sym}]\n\n'.format(sym=sym))
-                            f.write('[fail:{sym}]\n\n'.format(sym=sym))
-        os.chdir(save)
+        try:
+            keys = reversed(list(symbols.keys()))
+            existing_tests = {fname[3:]: fname for fname in os.listdir() if os.path.isfile(fname)}
+            for i, k in enumerate(keys):
+                filename = '{num:0>2}_test_{section}'.format(num=i + 1, section=k) + fmt
+                if not os.path.exists(filename):
+                    if filename[3:] in existing_tests:
+                        old_name = existing_tests[filename[3:]]
+                        print(f'Renaming test file "{old_name}" to "{filename}"')
+                        os.rename(old_name, filename)
+                        existing_tests[filename[3:]] = filename
+                    elif k is not ALL_SYMBOLS or not existing_tests:
+                        print('Creating test file template "{name}".'.format(name=filename))
+                        with open(filename, 'w', encoding='utf-8') as f:
+                            for sym in symbols[k]:
+                                f.write('\n[match:{sym}]\n\n'.format(sym=sym))
+                                f.write('[ast:{sym}]\n\n'.format(sym=sym))
+                                f.write('[fail:{sym}]\n\n'.format(sym=sym))
+        finally:
+            os.chdir(save)
     else:
         raise ValueError(path + ' is not a directory!')
 
@@ -1398,27 +1404,31 @@ def run_path(path):
     """Runs all unit tests in `path`"""
     if os.path.isdir(path):
         sys.path.append(path)
-        files = os.listdir(path)
-        results = []
-        with instantiate_executor(get_config_value('test_parallelization') and len(files) > 1,
-                                  PickMultiCoreExecutor) as pool:
-            for f in files:
-                f_lower = f.lower()
-                if f_lower.startswith('test_') and f_lower.endswith('.py'):
-                    results.append(pool.submit(run_file, f))
-                # run_file(f)  # for testing!
-            concurrent.futures.wait(results)
-            for r in results:
-                try:
-                    _ = r.result()
-                except AssertionError as failure:
-                    print(failure)
-
+        try:
+            files = os.listdir(path)
+            results = []
+            with instantiate_executor(get_config_value('test_parallelization') and len(files) > 1,
+                                      PickMultiCoreExecutor) as pool:
+                for f in files:
+                    f_lower = f.lower()
+                    if f_lower.startswith('test_') and f_lower.endswith('.py'):
+                        results.append(pool.submit(run_file, f))
+                    # run_file(f)  # for testing!
+                concurrent.futures.wait(results)
+                for r in results:
+                    try:
+                        _ = r.result()
+                    except AssertionError as failure:
+                        print(failure)
+        finally:
+            sys.path.pop()
     else:
         path, fname = os.path.split(path)
         sys.path.append(path)
-        run_file(fname)
-    sys.path.pop()
+        try:
+            run_file(fname)
+        finally:
+            sys.path.pop()
 
 
 def clean_report(report_dir='REPORT'):
-- 
2.43.0


From 7043c89de56fe1eca95180e7ddb0a82da36af79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 09/68] fix: deep copies of a syntax tree shared the sets of
 XML-tags with the original

---
 DHParser/nodetree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2f518a3..988eaf2 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2984,9 +2984,9 @@ class RootNode(Node):
         duplicate.lbreaks = copy.deepcopy(self.lbreaks, memodict)
         duplicate.error_flag = self.error_flag
 
-        duplicate.inline_tags = self.inline_tags
-        duplicate.string_tags = self.string_tags
-        duplicate.empty_tags = self.empty_tags
+        duplicate.inline_tags = set(self.inline_tags)
+        duplicate.string_tags = set(self.string_tags)
+        duplicate.empty_tags = set(self.empty_tags)
 
         duplicate.docname = self.docname
         duplicate.stage = self.stage
-- 
2.43.0


From 8f1db9832928451c3b40f253ffca681c0bb122de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 10/68] fix: deep copies of a grammar object lost its
 left-recursion setting

---
 DHParser/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 75c8dcd..765adf2 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1701,6 +1701,7 @@ class Grammar:
 
     def __deepcopy__(self, memo):
         duplicate = self.__class__(self.root_parser__)
+        duplicate.left_recursion__ = self.left_recursion__
         duplicate.history_tracking__ = self.history_tracking__
         duplicate.resume_notices__ = self.resume_notices__
         duplicate.max_parser_dropouts__ = self.max_parser_dropouts__
-- 
2.43.0


From f797a34c2a71696a4e2f2ab2b66765207ec7175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 11/68] fix: reflowing serializations do not overwrite the
 content of the serialized tree

---
 DHParser/nodetree.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 988eaf2..e679c4b 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1750,7 +1750,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
     def _tree_repr(self, tab, open_fn, close_fn, data_fn=lambda i: i,
                    density=0, inline=False, inline_fn=lambda node: False,
                    allow_omissions=False, reflow_fn=NO_REFLOW,
-                   mapping: RawMappingType = NO_MAPPING_SENTINEL, depth=0) -> List[str]:
+                   mapping: RawMappingType = NO_MAPPING_SENTINEL, depth=0,
+                   oneliner: bool=False) -> List[str]:
         """
         Generates a tree representation of this node and its children
         in string from.
@@ -1790,6 +1791,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             the length of the closing tag,
             e.g.  "<name>Fritz</name>" -> (6, 18, 7)"
         :param depth:  The current depth of the node in the tree.
+        :param oneliner:  If True, linebreaks and indentations in the data are
+            replaced by single blanks in the output (needed for reflowing)
 
         :returns:  A list of strings that, if concatenated, yield a
             serialized tree representation of the node and its children.
@@ -1800,10 +1803,11 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         if not inline:
             reflow = inline_fn(self)    # reflow is done on the first inlined element
             inline = reflow
-            if reflow and reflow_fn is not NO_REFLOW:
-                reflow_as_oneliner(self, xml_space_policy=XMLSpacePolicy.RESPECT)
+            oneliner = reflow and reflow_fn is not NO_REFLOW
         else:
             reflow = False
+        if oneliner and self.get_attr('xml:space', 'default') == 'preserve':
+            oneliner = False
 
         if inline:
             usetab = (tab * depth) if reflow else ''
@@ -1831,7 +1835,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             content = [usetab + head] if head else []
             for child in self._children:
                 subtree = child._tree_repr(tab, open_fn, close_fn, data_fn, density,
-                        inline, inline_fn, allow_omissions, reflow_fn, mapping, depth + 1)
+                        inline, inline_fn, allow_omissions, reflow_fn, mapping, depth + 1,
+                        oneliner)
                 if subtree:
                     if inline:
                         content.append('\n'.join(subtree))
@@ -1846,7 +1851,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 content[-1] += tail
 
         else:
-            res = self.content
+            res = RX_WHITESPACE.sub(' ', self.content) if oneliner else self.content
             if not inline and not head and allow_omissions:
                 # strip whitespace for omitted non-inline node, e.g. CharData in mixed elements
                 res = res.strip()  # WARNING: This changes the data in subtle ways
@@ -2071,6 +2076,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 return False
             else:
                 inner_content = nd.content
+                if nd.get_attr('xml:space', 'default') != 'preserve':
+                    inner_content = RX_WHITESPACE.sub(' ', inner_content)
                 return True
 
         if flatten_threshold >= INFINITE:  indentation = 0
-- 
2.43.0


From f079799f850965f932afafa1fb5d322f27392333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 12/68] fix: Node.as_html does not modify the set of empty tags
 passed by the caller

---
 DHParser/nodetree.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index e679c4b..ed1068b 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2297,9 +2297,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 **kwargs) -> str:
         """Serialize as HTML page. See :py:meth:`Node.as_xml` for the further
         keyword-arguments."""
-        kwargs['empty_tags'] = empty_tags
-        if empty_tags is not HTML_EMPTY_TAGS:
-            kwargs['empty_tags'].update(HTML_EMPTY_TAGS)
+        kwargs['empty_tags'] = set(empty_tags) | HTML_EMPTY_TAGS
         xhtml = self.as_xml(**kwargs)
         css_snippet = '\n'.join(['<style type="text/css">', css, '</style>'])
         if head:
-- 
2.43.0


From c2f6c31745842ce03deb282141aa4648d56b9709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 13/68] fix: markup functions do not add chain-IDs to the
 attribute dictionary of the caller

---
 DHParser/nodetree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index ed1068b..f87c6ea 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4893,7 +4893,7 @@ def markup_right(path: Path, i: cython.int, name: str, attr_dict: Dict[str, Any]
     i = deep_split(path[k:], i, True, greedy, match_func, skip_func, chain_attr_name)
 
     if chain_attr_name and chain_attr_name not in attr_dict:
-        attr_dict[chain_attr_name] = gen_chain_ID()
+        attr_dict = {**attr_dict, chain_attr_name: gen_chain_ID()}
 
     nd = Node(name, path[k]._result[i:]).with_attr(attr_dict)
     if nd._children:
@@ -4998,7 +4998,7 @@ def markup_left(path: Path, i: cython.int, name: str, attr_dict: Dict[str, Any],
     i = deep_split(path[k:], i, False, greedy, match_func, skip_func, chain_attr_name)
 
     if chain_attr_name and chain_attr_name not in attr_dict:
-        attr_dict[chain_attr_name] = gen_chain_ID()
+        attr_dict = {**attr_dict, chain_attr_name: gen_chain_ID()}
 
     nd = Node(name, path[k]._result[:i]).with_attr(attr_dict)
     nd._pos = path[k]._pos
@@ -5779,7 +5779,7 @@ class ContentMapping:
         assert not attr_dict or (len(attr_dict) == 1 and isinstance(attr_dict[0], Dict)), \
             f'{attr_dict} is not a valid attribute-dictionary!'
         assert end_pos >= start_pos
-        attr_dict = attr_dict[0] if attr_dict else {}
+        attr_dict = dict(attr_dict[0]) if attr_dict else {}
         attr_dict.update(attributes)
         if start_pos == end_pos:
             milestone = Node(name, '').with_attr(attr_dict)
-- 
2.43.0


From c36589791c00c4d9e8b8d1fd4236713f889cad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 14/68] fix: ContentMapping does not modify the divisibility
 dictionary of the caller

---
 DHParser/nodetree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index f87c6ea..a2449f2 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5174,8 +5174,7 @@ class ContentMapping:
         self.ignore_func: PathMatchFunction = ignore_func
         self.greedy: bool = greedy
         if isinstance(divisibility, Dict):
-            if '*' not in divisibility:  divisibility['*'] = set()
-            self.divisibility: Dict[str, Container] = divisibility
+            self.divisibility: Dict[str, Container] = {'*': set(), **divisibility}
         elif isinstance(divisibility, str):
             for delimiter in (';', ',', ' '):
                 lst = divisibility.split(delimiter)
-- 
2.43.0


From c99e8b776bdcc29153da58ec2c557e23ceecede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 15/68] fix: a server does not enter its own service functions
 into the rpc-table of the caller

---
 DHParser/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 2d134a1..7531da9 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1098,7 +1098,7 @@ class Server:
         self.server_name = server_name or self.__class__.__name__
         self.strict_lsp = strict_lsp
         if isinstance(rpc_functions, Dict):
-            self.rpc_table = cast(RPC_Table, rpc_functions)  # type: RPC_Table
+            self.rpc_table = dict(cast(RPC_Table, rpc_functions))  # type: RPC_Table
             if 'default' not in self.rpc_table:
                 self.rpc_table['default'] = default_fallback
             self.default = 'default'
-- 
2.43.0


From 68db85e493b01f564b94b98a4ec9d449733c0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 16/68] fix: fuse() does not replace nodes in the list passed
 by the caller

---
 DHParser/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index eee6236..8cee73e 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1323,8 +1323,7 @@ def fuse(result: Sequence[Node],
         leave-nodes and no node was "swallowed".
     """
     if swallow is not None:
-        if not isinstance(result, list):
-            result = list(result)
+        result = list(result)
         for i in range(len(result)):
             if swallow([result[i]]):
                 result[i] = Node(':Swallowed', result[i])
-- 
2.43.0


From bfb67dde12962ceab4fa932beef778a95d6d8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 17/68] fix: wrap_str_literal() does not modify the list passed
 by the caller

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 1b81546..f6ce646 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -731,7 +731,7 @@ def wrap_str_literal(s: Union[str, List[str]], column: int = 80, offset: int = 0
     """
     if isinstance(s, list):
         assert len(s) > 0
-        parts = s
+        parts = list(s)
         s = '\n'.join(s)
     else:
         parts = None
-- 
2.43.0


From f9ce4e2e43a3f561e9642bee8a860ec38e09ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 18/68] fix: batch_process() shuts its worker pool down if a
 process_file call fails

---
 DHParser/dsl.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index fdd6e5e..76f2b07 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -947,20 +947,22 @@ def batch_process(file_names: List[str], out_dir: str,
     if submit_func is None:
         pool = instantiate_executor(get_config_value('batch_processing_parallelization'),
                                     PickMultiCoreExecutor)
-        chunksize = min(get_config_value('batch_processing_max_chunk_size'),
-                        max(1, len(file_names) // (cpu_count() * 4)))
-        if pf_parms == 3:
-            res_iter = pool.map(process_file,
-                                ((name, out_dir, cancel_query) for name in file_names),
-                                chunksize=chunksize)
-        else:
-            res_iter = pool.map(process_file, ((name, out_dir) for name in file_names),
-                                chunksize=chunksize)
-        error_files = collect_results(res_iter, file_names, log_func, cancel_query or never_cancel)
-        if sys.version_info >= (3, 9, 0):
-            pool.shutdown(wait=True, cancel_futures=True)
-        else:
-            pool.shutdown(wait=True)
+        try:
+            chunksize = min(get_config_value('batch_processing_max_chunk_size'),
+                            max(1, len(file_names) // (cpu_count() * 4)))
+            if pf_parms == 3:
+                res_iter = pool.map(process_file,
+                                    ((name, out_dir, cancel_query) for name in file_names),
+                                    chunksize=chunksize)
+            else:
+                res_iter = pool.map(process_file, ((name, out_dir) for name in file_names),
+                                    chunksize=chunksize)
+            error_files = collect_results(res_iter, file_names, log_func, cancel_query or never_cancel)
+        finally:
+            if sys.version_info >= (3, 9, 0):
+                pool.shutdown(wait=True, cancel_futures=True)
+            else:
+                pool.shutdown(wait=True)
     else:
         if pf_parms == 3:
             futures = [submit_func(process_file, name, out_dir, cancel_query)
-- 
2.43.0


From 7f787b0f161450ef852b0d9610012466c4be70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 19/68] fix: connections to a server are closed by
 probe_tcp_server() and send_stop_server()

---
 DHParser/server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 7531da9..027e60d 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1921,6 +1921,8 @@ async def probe_tcp_server(host, port, timeout=SERVER_REPLY_TIMEOUT) -> str:
             return ident.decode()
         except asyncio.TimeoutError:
             return ''
+        finally:
+            writer.close()
     except ConnectionRefusedError:
         return ''
 
@@ -2131,7 +2133,10 @@ async def send_stop_request(reader: StreamReaderType, writer: StreamWriterType):
 async def send_stop_server(host: str, port: int, timeout) -> Optional[Exception]:
     try:
         reader, writer = await asyncio.open_connection(host, port)
-        await send_stop_request(reader, writer)
+        try:
+            await send_stop_request(reader, writer)
+        finally:
+            writer.close()
         if timeout > 0.0:
             if not await has_server_stopped(host, port, timeout):
                 raise AssertionError('Could not stop server on host %s port %i '
-- 
2.43.0


From 8d634001c368a8b6e461453b265899a7e899a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 20/68] fix: ExecutionEnvironment.submit_as_process() does not
 wait for a lock that it holds itself

---
 DHParser/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 027e60d..7d65ed6 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -520,8 +520,9 @@ class ExecutionEnvironment:
         """
         # if self.submit_pool is None:
         #     self._submit_pool = ProcessPoolExecutor()
+        submit_pool = self.submit_pool  # (takes the lock itself, if the pool has to be created)
         with self.submit_pool_lock:
-            future = self.submit_pool.submit(func, *args)
+            future = submit_pool.submit(func, *args)
         return future
 
     def shutdown(self, wait: bool = True):
-- 
2.43.0


From 964f81f37db4ff669914ffc4568da3b3660b77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 21/68] fix: the lock and the thread-local store of the
 configuration are created at import, not raced for

---
 DHParser/configuration.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 57a4596..221f026 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -48,6 +48,7 @@ program and before any DHParser-function is invoked.
 from __future__ import annotations
 
 import sys
+import threading
 from typing import Dict, Any, Iterable, List
 
 __all__ = ('CONFIG_PRESET',
@@ -83,22 +84,16 @@ CONFIG_PRESET = dict()  # type: Dict[str, Any]
 CONFIG_PRESET['syncfile_path'] = ''
 ACCESSING_PRESETS = False
 PRESETS_CHANGED = False
-THREAD_LOCALS = None
+THREAD_LOCALS = threading.local()  # TODO: Use ContextVars, here!!!
 ALLOWED_PRESET_VALUES = dict()  # Dict[str, Union[Set, Tuple[int, int]]
 # dictionary that maps config variables to a set or range of allowed values
 
 
-access_lock = None  # = threading.Lock()
+access_lock = threading.Lock()
 
 
 def get_access_lock():  # -> threading.Lock()
-    """Return a global threading.Lock, create it upon first usage."""
-    global access_lock
-    if access_lock is None:
-        import threading
-        lock = threading.Lock()
-        if access_lock is None:
-            access_lock = lock
+    """Return the global threading.Lock for the configuration values."""
     return access_lock
 
 
@@ -401,19 +396,13 @@ def get_preset_values(key_pattern: str) -> Dict:
 
 
 def access_thread_locals() -> Any:
-    """Intitializes (if not done yet) and returns the thread local variable
-    store. (Call this function before using THREAD_LOCALS.
-    Direct usage of THREAD_LOCALS is DEPRECATED!)
+    """Returns the thread local variable store. (Call this function before
+    using THREAD_LOCALS. Direct usage of THREAD_LOCALS is DEPRECATED!)
     """
-    global THREAD_LOCALS
-    if THREAD_LOCALS is None:
-        import threading
-        THREAD_LOCALS = threading.local()  # TODO: Use ContextVars, here!!!
     return THREAD_LOCALS
 
 
 def _config_dict():
-    global THREAD_LOCALS
     THREAD_LOCALS = access_thread_locals()
     try:
         cfg = THREAD_LOCALS.config
-- 
2.43.0


From 8b809ba9ce1ee24ea28dade7b73c16e6ec7e310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 22/68] fix: get_config_values() accesses the presets under the
 configuration lock

---
 DHParser/configuration.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 221f026..38a1bd7 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -448,15 +448,15 @@ def get_config_value(key: str, default: Any = NO_DEFAULT) -> Any:
 def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
     """Returns a dictionary of all configuration entries that match
     `key_pattern`."""
-    access_presets()
-    try:
-        presets = get_preset_values(key_pattern)
-        for pattern in additional_patterns:
-            presets.update(get_preset_values(pattern))
-    finally:
-        finalize_presets()
     import fnmatch
     with get_access_lock():
+        access_presets()
+        try:
+            presets = get_preset_values(key_pattern)
+            for pattern in additional_patterns:
+                presets.update(get_preset_values(pattern))
+        finally:
+            finalize_presets()
         cfg = _config_dict()
         cfg_values = dict()
         for pattern in (key_pattern, *additional_patterns):
-- 
2.43.0


From c3f8045eb484b4a89fd5423644fad5a68f7af0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 23/68] fix: get_config_values() does not reset values that
 match an additional pattern to the presets

---
 DHParser/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 38a1bd7..31e3fd4 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -464,7 +464,7 @@ def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
                 cfg_values.update(cfg)
             else:
                 cfg_values.update({key: value for key, value in cfg.items()
-                                   if fnmatch.fnmatchcase(key, key_pattern)})
+                                   if fnmatch.fnmatchcase(key, pattern)})
         presets.update(cfg_values)
         cfg.update(presets)
     return presets
-- 
2.43.0


From b7c0157aa43a1bbaef33df8fd063195e8c79c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 24/68] fix: the placeholders for parser and grammar are
 created once and published when complete

---
 DHParser/parse.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 765adf2..d20d544 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -35,6 +35,7 @@ import functools
 from collections import defaultdict
 import copy
 from functools import lru_cache
+import threading
 from typing import Callable, cast, Collection, DefaultDict, Sequence, Union, Optional, \
     NamedTuple, Iterator
 
@@ -476,13 +477,18 @@ def artifact(nd: Node) -> bool:
 #
 ########################################################################
 
+# guards the one-time initializations that are shared by all threads
+_INIT_LOCK = threading.RLock()
+
 _GRAMMAR_PLACEHOLDER = None  # type: Optional[Grammar]
 
 
 def get_grammar_placeholder() -> Grammar:
     global _GRAMMAR_PLACEHOLDER
     if _GRAMMAR_PLACEHOLDER is None:
-        _GRAMMAR_PLACEHOLDER = Grammar.__new__(Grammar)
+        with _INIT_LOCK:
+            if _GRAMMAR_PLACEHOLDER is None:
+                _GRAMMAR_PLACEHOLDER = Grammar.__new__(Grammar)
     return cast(Grammar, _GRAMMAR_PLACEHOLDER)
 
 
@@ -1148,13 +1154,16 @@ PARSER_PLACEHOLDER = None  # type: Optional[Parser]
 def get_parser_placeholder() -> Parser:
     global PARSER_PLACEHOLDER
     if PARSER_PLACEHOLDER is None:
-        PARSER_PLACEHOLDER = Parser.__new__(Parser)  # Parser()
-        PARSER_PLACEHOLDER.pname = ''
-        PARSER_PLACEHOLDER.ptype = ':Parser'
-        PARSER_PLACEHOLDER.disposable = False
-        PARSER_PLACEHOLDER.drop_content = False
-        PARSER_PLACEHOLDER.node_name = ':PLACEHOLDER__'
-        PARSER_PLACEHOLDER.sub_parsers = frozenset()
+        with _INIT_LOCK:
+            if PARSER_PLACEHOLDER is None:
+                placeholder = Parser.__new__(Parser)  # Parser()
+                placeholder.pname = ''
+                placeholder.ptype = ':Parser'
+                placeholder.disposable = False
+                placeholder.drop_content = False
+                placeholder.node_name = ':PLACEHOLDER__'
+                placeholder.sub_parsers = frozenset()
+                PARSER_PLACEHOLDER = placeholder
     return cast(Parser, PARSER_PLACEHOLDER)
 
 
-- 
2.43.0


From a576db6dd19f11c356a8a224d3ca0faf1164af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 25/68] fix: a grammar class can be instantiated for the first
 time by several threads at once

---
 DHParser/parse.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index d20d544..c213c5c 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1691,21 +1691,25 @@ class Grammar:
         (www.python.org/dev/peps/pep-0520/) for an explanation of why.
         """
         if cls.parser_initialization__[0] != "done" and cls != Grammar:
-            cdict = cls.__dict__
-            # cls.static_analysis_errors__ = []
-            cls.parser_names__ = []
-            for entry, parser in cdict.items():
-                if isinstance(parser, Parser) and entry not in RESERVED_PARSER_NAMES:
-                    anonymous = ":" if is_disposable(entry, cls.disposable__) else ""
-                    assert anonymous or not parser.drop_content, entry
-                    if isinstance(parser, Forward):
-                        if not cast(Forward, parser).parser.pname:
-                            cast(Forward, parser).parser.name(anonymous + entry)
-                    else:
-                        parser.name(anonymous + entry)
-                    cls.parser_names__.append(entry)
-                    ensure_drop_propagation(parser)
-            cls.parser_initialization__ = ["done"]  # (over-)write subclass-variable
+            with _INIT_LOCK:
+                if cls.parser_initialization__[0] == "done":
+                    return  # another thread has been faster
+                cdict = cls.__dict__
+                # cls.static_analysis_errors__ = []
+                parser_names = []
+                for entry, parser in cdict.items():
+                    if isinstance(parser, Parser) and entry not in RESERVED_PARSER_NAMES:
+                        anonymous = ":" if is_disposable(entry, cls.disposable__) else ""
+                        assert anonymous or not parser.drop_content, entry
+                        if isinstance(parser, Forward):
+                            if not cast(Forward, parser).parser.pname:
+                                cast(Forward, parser).parser.name(anonymous + entry)
+                        else:
+                            parser.name(anonymous + entry)
+                        parser_names.append(entry)
+                        ensure_drop_propagation(parser)
+                cls.parser_names__ = parser_names
+                cls.parser_initialization__ = ["done"]  # (over-)write subclass-variable
 
 
     def __deepcopy__(self, memo):
@@ -1837,11 +1841,9 @@ class Grammar:
                  or (static_analysis is None
                      and get_config_value('static_analysis') in {'early', 'late'}))):
             analysis_errors = self.static_analysis__()
-            # clears any stored errors without overwriting the pointer
-            while self.static_analysis_errors__:
-                self.static_analysis_errors__.pop()
-            self.static_analysis_errors__.extend(analysis_errors)
-            self.static_analysis_pending__.pop()
+            # replaces any stored errors without overwriting the pointer
+            self.static_analysis_errors__[:] = analysis_errors
+            self.static_analysis_pending__.clear()
             # raise a GrammarError even if result only contains warnings.
             # It is up to the caller to decide whether to ignore warnings
             # # has_errors = any(is_error(tpl[-1].code) for tpl in result)
-- 
2.43.0


From ca8d03383fc557a9c7d63e574843a7d0f3bfb096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 26/68] fix: the lock of ThreadLocalSingletonFactory is not
 created lazily

---
 DHParser/toolkit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index f6ce646..609b211 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -33,6 +33,7 @@ import json
 import os
 import re
 import sys
+import threading
 
 
 if sys.version_info >= (3, 12, 0):
@@ -1770,6 +1771,8 @@ class ThreadLocalSingletonFactory:
     not unique but generic. See the source code of
     :py:func:`DHParser.dsl.create_transtable_junction`
     """
+    lock = threading.Lock()
+
     def __init__(self, class_or_factory, name: str = "", *,
                  uniqueID: Union[str, int] = 0,
                  ident=None):
@@ -1780,9 +1783,6 @@ class ThreadLocalSingletonFactory:
         # partial functions do not have a __name__ attribute!
         name = name or getattr(class_or_factory, '__name__', '') or class_or_factory.func.__name__
         if not uniqueID:
-            if not hasattr(self.__class__, 'lock'):
-                import threading
-                self.__class__.lock = threading.Lock()
             with self.__class__.lock:
                 uniqueID = gen_id()
         self.singleton_name = f"{name}_{str(id(self))}_{str(uniqueID)}_singleton"
-- 
2.43.0


From 5c3dced003681fd2904c794933967e0d426e85ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 27/68] fix: the code generated from a grammar does not depend
 on the hash seed

---
 DHParser/ebnf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 27cd1ae..ea4cdeb 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1460,7 +1460,7 @@ class EBNFDirectives:
         for s in frozenset(symbols):
             if re.match(self.disposable, s):  symbols.remove(s)
         if symbols:
-            pattern = '$|'.join(symbols) + '$'
+            pattern = '$|'.join(sorted(symbols)) + '$'
             if self.disposable != NEVER_MATCH_PATTERN:
                 self.disposable = f'(?:{self.disposable})|(?:{pattern})'
             else:
@@ -1848,7 +1848,7 @@ class EBNFCompiler(Compiler):
         if flags:
             if 'i' in flags:
                 rx = rx.replace('(?P<:Text>', '(?P<:IgnoreCase>')
-            rx = "(?%s)%s" % ("".join(flags), rx)
+            rx = "(?%s)%s" % ("".join(sorted(flags)), rx)
         try:
             test_rx = RX_NAMED_GROUPS.sub('(', rx) if smartRE else rx
             re.compile(test_rx)
@@ -2270,7 +2270,7 @@ class EBNFCompiler(Compiler):
         for symbol in self.referred_otherwise:
             if symbol in defined_symbols:
                 remove_connections(symbol)
-        for leftover in defined_symbols - self.py_symbols:
+        for leftover in sorted(defined_symbols - self.py_symbols):
             ambiguity_notice = ''
             if get_globals(self.path)['syntax_variant'] == 'heuristic':
                 for nd in self.path[0].select('char_range', include_root=True):
@@ -2400,7 +2400,7 @@ class EBNFCompiler(Compiler):
             # circumvent name-errors for external symbols
             tmpl = "def {name}(*args, **kwargs):\n    return ERR('')\n"
             probe_src = '\n'.join([DHPARSER_IMPORTS, '\n'] +
-                                  [tmpl.format(name=name) for name in self.py_symbols
+                                  [tmpl.format(name=name) for name in sorted(self.py_symbols)
                                    if name not in self.rules] +
                                   [python_src])
             try:
-- 
2.43.0


From 78b4cecef559f167b5ed5614376d1743bf708fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 28/68] fix: the texts of error messages do not depend on the
 hash seed

---
 DHParser/ebnf.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index ea4cdeb..b69efe7 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2637,12 +2637,12 @@ class EBNFCompiler(Compiler):
                         self.tree.new_error(node, 'Illegal value "%s" for Directive "@ drop"! '
                                             'Should be one of %s or a disposable parser, where '
                                             'the "@disposable"/"@hide"-directive must precede the '
-                                            '@drop-directive.' % (content, str(DROP_VALUES)))
+                                            '@drop-directive.' % (content, ', '.join(sorted(DROP_VALUES))))
                     else:
                         self.tree.new_error(
                             node, 'Illegal value "%s" for Directive "@ drop"! Should be one of '
                             '%s or a string matching r"%s", preceeded by "$" in case of a macro '
-                            'name' % (content, str(DROP_VALUES), self.directives.disposable))
+                            'name' % (content, ', '.join(sorted(DROP_VALUES)), self.directives.disposable))
             if unmatched:
                 self.directives[key].add(content)
                 self.directives.add_to_disposable_symbols(unmatched)
@@ -2671,7 +2671,7 @@ class EBNFCompiler(Compiler):
             if ((values - {'left', 'right', 'both', 'none'})
                     or ('none' in values and len(values) > 1)):
                 self.tree.new_error(node, 'Directive "literalws" allows only `left`, `right`, '
-                                    '`both` or `none`, not `%s`' % ", ".join(values))
+                                    '`both` or `none`, not `%s`' % ", ".join(sorted(values)))
             wsp = {'left', 'right'} if 'both' in values else set() if 'none' in values else values
             self.directives.literalws = wsp
 
@@ -2680,7 +2680,7 @@ class EBNFCompiler(Compiler):
             redeclared = self.directives.tokens & tokens
             if redeclared:
                 self.tree.new_error(node, 'Tokens %s have already been declared earlier. '
-                                    % str(redeclared) + 'Later declaration will be ignored',
+                                    % ', '.join(sorted(redeclared)) + 'Later declaration will be ignored',
                                     code=REDECLARED_TOKEN_WARNING)
             self.directives.tokens |= tokens - redeclared
 
@@ -2695,7 +2695,7 @@ class EBNFCompiler(Compiler):
             if any(v not in allowed for v in values):
                 self.tree.new_error(
                     node, f'Directive "optimizations" allows only "none", "some", "all" '
-                          f'or any subset of {set(allowed)} as values, not {values} .')
+                          f'or any subset of {sorted(allowed)} as values, not {sorted(values)} .')
             self.directives.optimizations = values
 
         elif key == "flavor":
@@ -2704,7 +2704,7 @@ class EBNFCompiler(Compiler):
             allowed = ALLOWED_PRESET_VALUES['syntax_variant']
             if arg not in allowed:
                 self.tree.new_error(
-                    node, f'Directive "flavor" allows only {set(allowed)}, not {arg} .')
+                    node, f'Directive "flavor" allows only {sorted(allowed)}, not {arg} .')
             else:
                 self.directives.flavor = arg
             # no further action needed, because this directive has already been interpreted
@@ -2819,7 +2819,7 @@ class EBNFCompiler(Compiler):
             return ""
         leftover = set(placeholders) - used_placholders
         if leftover:
-            self.tree.new_error(node, f"Unused macro arguments: {str(leftover)[1:-1]}",
+            self.tree.new_error(node, f"Unused macro arguments: {str(sorted(leftover))[1:-1]}",
                                 UNUSED_MACRO_ARGUMENTS_WARNING)
         self.macros[macro_name] = (node, placeholders, template)
         return ""
-- 
2.43.0


From 3a9b6c91563229827d27e4eb5241b8281a060c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 29/68] fix: the descendants of a parser are visited in
 pre-order and not in random order

---
 DHParser/parse.py | 78 +++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index c213c5c..dff4e4b 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -577,7 +577,7 @@ class Parser:
                 through a proxy like, for example, a tracing debugger.
                 See :py:mod:`~DHParser.trace`
 
-    :ivar \_sub_parsers: Set of parsers that are directly referred to by
+    :ivar \_sub_parsers: Tuple (without duplicates) of parsers that are directly referred to by
                 this parser, e.g. parser "a" defined by the EBNF-expression
                 "a = b (b | c)" has the sub-parser-set {b, c}.
 
@@ -613,7 +613,7 @@ class Parser:
         self.node_name = self.ptype   # type: str   # can be changed later
         self.disposable = True        # type: bool
         self.drop_content = False     # type: bool
-        self._sub_parsers = frozenset()  # type: FrozenSet[Parser]
+        self._sub_parsers = ()  # type: Tuple[Parser, ...]
         # this indirection is required for Cython-compatibility
         self._parse_proxy = self._parse  # type: BoundParseFunc
         try:
@@ -621,9 +621,9 @@ class Parser:
         except NameError:
             pass                        # ensures Cython-compatibility
         self._symbol = ''               # type: str
-        self._descendants_cache = None  # type: Optional[AbstractSet[Parser]]
+        self._descendants_cache = None  # type: Optional[Tuple[Parser, ...]]
         self._anon_desc_cache = None    # type: Optional[AbstractSet[Parser]]
-        self._desc_trails_cache = None  # type: Optional[AbstractSet[ParserTrail]]
+        self._desc_trails_cache = None  # type: Optional[Tuple[ParserTrail, ...]]
         self.reset()
 
     def __deepcopy__(self, memo):
@@ -910,56 +910,56 @@ class Parser:
             self._grammar = grammar
 
     @property
-    def sub_parsers(self) -> FrozenSet[Parser]:
+    def sub_parsers(self) -> Tuple[Parser, ...]:
         return self._sub_parsers
 
     @sub_parsers.setter
-    def sub_parsers(self, f: FrozenSet[Parser]):
+    def sub_parsers(self, f: Tuple[Parser, ...]):
         self._sub_parsers = f
 
-    def descendants(self, grammar = _GRAMMAR_PLACEHOLDER) -> AbstractSet[Parser]:
-        """Returns a set of self and all descendant parsers,
-        avoiding circles."""
+    def descendants(self, grammar = _GRAMMAR_PLACEHOLDER) -> Tuple[Parser, ...]:
+        """Returns self and all descendant parsers (without duplicates)
+        in pre-order, avoiding circles."""
         if self._descendants_cache is None:
             # Caches descendants, avoiding cycles; updates grammar if needed
             if self._desc_trails_cache:
                 self._descendants_cache = tuple(pt[-1] for pt in self._desc_trails_cache)
             else:
                 if  is_grammar_placeholder(grammar):   grammar = self._grammar
-                visited = set()
+                visited: Dict[Parser, None] = dict()  # an ordered set
 
                 def collect(parser: Parser):
                     nonlocal visited
                     if parser not in visited:
                         parser.grammar = grammar
-                        visited.add(parser)
+                        visited[parser] = None
                         for p in parser.sub_parsers:
                             collect(p)
                 collect(self)
-                self._descendants_cache = frozenset(visited)  # tuple(p for p in collect(self))
+                self._descendants_cache = tuple(visited)
         return self._descendants_cache
 
-    def descendant_trails(self) -> AbstractSet[ParserTrail]:
-        """Returns a set of the trails of self and all descendant
-        parsers, avoiding circles. NOTE: The algorithm is rather sloppy and
-        the returned set is not really comprehensive, but sufficient to trace
+    def descendant_trails(self) -> Tuple[ParserTrail, ...]:
+        """Returns the trails of self and all descendant
+        parsers in pre-order, avoiding circles. NOTE: The algorithm is rather sloppy and
+        the returned tuple is not really comprehensive, but sufficient to trace
         anonymous parsers to their nearest named ancestor."""
         if self._desc_trails_cache is None:
             visited = set()
-            trails = set()
+            trails: List[ParserTrail] = []
 
             def collect_trails(parser: Parser, ptrl: List[Parser]):
                 nonlocal visited, trails
                 if parser not in visited:
                     visited.add(parser)
                     ptrl.append(parser)
-                    trails.add(tuple(ptrl))
+                    trails.append(tuple(ptrl))
                     for p in parser.sub_parsers:
                         collect_trails(p, ptrl)
                     ptrl.pop()
 
             collect_trails(self, [])
-            self._desc_trails_cache = frozenset(trails)
+            self._desc_trails_cache = tuple(trails)
         return self._desc_trails_cache
 
     def apply(self, func: ApplyFunc, grammar = _GRAMMAR_PLACEHOLDER) -> Optional[bool]:
@@ -1162,7 +1162,7 @@ def get_parser_placeholder() -> Parser:
                 placeholder.disposable = False
                 placeholder.drop_content = False
                 placeholder.node_name = ':PLACEHOLDER__'
-                placeholder.sub_parsers = frozenset()
+                placeholder.sub_parsers = ()
                 PARSER_PLACEHOLDER = placeholder
     return cast(Parser, PARSER_PLACEHOLDER)
 
@@ -2386,6 +2386,7 @@ class Grammar:
         ``associated_symbol__()`` on each parser individually.
         """
         symbol = get_parser_placeholder()
+        symbols: Dict[str, Parser] = dict()
 
         def add_anonymous_descendants(p: Parser):
             nonlocal symbol
@@ -2396,12 +2397,14 @@ class Grammar:
 
         for p in self.all_parsers__:
             if isinstance(p, Forward) and cast(Forward, p).parser.pname:
-                symbol = cast(Forward, p).parser
-                self.associated_symbol_cache__[p] = symbol
-                add_anonymous_descendants(symbol)
+                self.associated_symbol_cache__[p] = cast(Forward, p).parser
+                symbols[cast(Forward, p).parser.pname] = cast(Forward, p).parser
             elif p.pname:
-                symbol = p
-                add_anonymous_descendants(symbol)
+                symbols[p.pname] = p
+        # anonymous parsers can be shared by several symbols, therefore: fixed order
+        for pname in sorted(symbols):
+            symbol = symbols[pname]
+            add_anonymous_descendants(symbol)
 
 
     def static_analysis__(self) -> List[AnalysisError]:
@@ -2454,6 +2457,7 @@ class Grammar:
                     'Parser %s is entirely cyclical and, therefore, cannot even touch '
                     'the parsed document' % cast('CombinedParser', parser).location_info(),
                     0, PARSER_NEVER_TOUCHES_DOCUMENT)))
+        error_list.sort(key=lambda ae: (ae.symbol, ae.error.code, ae.error.message))
         return error_list
 
 
@@ -3634,7 +3638,7 @@ class UnaryParser(CombinedParser):
         super().__init__()
         # assert isinstance(parser, Parser), str(parser)
         self.parser = parser  # type: Parser
-        self.sub_parsers = frozenset({parser})
+        self.sub_parsers = (parser,)
 
     def __deepcopy__(self, memo):
         parser = copy.deepcopy(self.parser, memo)
@@ -3661,13 +3665,13 @@ class LateBindingUnary(UnaryParser):
         assert parser_name
         super().__init__(get_parser_placeholder())
         self.parser_name: str = parser_name
-        self._sub_parsers = frozenset()
+        self._sub_parsers = ()
 
     def  __deepcopy__(self, memo):
         duplicate = self.__class__(self.parser_name)
         if not is_parser_placeholder(self.parser):
             duplicate.parser = copy.deepcopy(self.parser, memo)
-            duplicate.sub_parsers = frozenset({duplicate.parser})
+            duplicate.sub_parsers = (duplicate.parser,)
         copy_combined_parser_attrs(self, duplicate)
         return duplicate
 
@@ -3681,16 +3685,16 @@ class LateBindingUnary(UnaryParser):
         return self.parser
 
     @property
-    def sub_parsers(self) -> FrozenSet[Parser]:
+    def sub_parsers(self) -> Tuple[Parser, ...]:
         if not self._sub_parsers:
-            self._sub_parsers = frozenset({self._resolve_parser_name()})
+            self._sub_parsers = (self._resolve_parser_name(),)
         return self._sub_parsers
 
     @sub_parsers.setter
-    def sub_parsers(self, f: FrozenSet[Parser]):
+    def sub_parsers(self, f: Tuple[Parser, ...]):
         """Sets sub‑parsers unless placeholder is present"""
-        if len(f) == 1 and is_parser_placeholder(list(f)[0]):
-            self._sub_parsers = frozenset()
+        if len(f) == 1 and is_parser_placeholder(f[0]):
+            self._sub_parsers = ()
         else:
             self._sub_parsers = f
 
@@ -4002,7 +4006,7 @@ class NaryParser(CombinedParser):
             raise ValueError('Cannot initialize NaryParser with zero parsers.')
         # assert all(isinstance(p, Parser) for p in parsers)
         self.parsers = parsers  # type: Tuple[Parser, ...]
-        self.sub_parsers = frozenset(parsers)
+        self.sub_parsers = tuple(dict.fromkeys(parsers))  # without duplicates
 
     def __deepcopy__(self, memo):
         parsers = copy.deepcopy(self.parsers, memo)
@@ -5183,7 +5187,7 @@ class Forward(UnaryParser):
         super().__init__(get_parser_placeholder())
         # self.parser = get_parser_placeholder  # type: Parser
         self.cycle_reached: bool = False
-        self.sub_parsers = frozenset()
+        self.sub_parsers = ()
 
     def reset(self):
         super(Forward, self).reset()
@@ -5196,7 +5200,7 @@ class Forward(UnaryParser):
         copy_parser_base_attrs(self, duplicate)
         parser = copy.deepcopy(self.parser, memo)
         duplicate.parser = parser
-        duplicate.sub_parsers = frozenset({parser})
+        duplicate.sub_parsers = (parser,)
         return duplicate
 
     @cython.locals(ldepth=cython.int, rb_stack_size=cython.int)
@@ -5335,7 +5339,7 @@ class Forward(UnaryParser):
         shall be delegated.
         """
         self.parser = parser
-        self.sub_parsers = frozenset({parser})
+        self.sub_parsers = (parser,)
         if self.pname and not parser.pname:  parser.name(self.pname, self.disposable)
         if not parser.drop_content:  parser.disposable = self.disposable
         self.drop_content = parser.drop_content
-- 
2.43.0


From 5b03bc70020bea1b1ca06496b12fd8ff7bd97f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 30/68] fix: the symbol of an unconnected parser is looked up
 in a fixed order

---
 DHParser/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index dff4e4b..565c8bd 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1810,7 +1810,7 @@ class Grammar:
         assert 'root_parser__' in self.__dict__
         assert self.root_parser__ == self.__dict__['root_parser__']
         self.ff_parser__ = self.root_parser__
-        self.unconnected_parsers__: MutableSet[Parser] = set()
+        self.unconnected_parsers__: Dict[Parser, None] = dict()  # an ordered set
         self.resume_parsers__: MutableSet[Parser] = set()
         resume_lists = []
         # copy the rules, because parsers inside the lists will be replaced by this
@@ -1827,11 +1827,11 @@ class Grammar:
                     p = self[l[i].pname]  # deep-copy and initialize with grammar-object
                     l[i] = p
                     if p not in root_connected:
-                        self.unconnected_parsers__.add(p)
+                        self.unconnected_parsers__[p] = None
                         self.resume_parsers__.add(p)
         for name in self.__class__.parser_names__:
             parser = self[name]  # deep-copy and initialize with grammar-object (see __getitem__)
-            if parser not in root_connected:  self.unconnected_parsers__.add(parser)
+            if parser not in root_connected:  self.unconnected_parsers__[parser] = None
 
         for p in self.all_parsers__:  reset_parser(p)
         if not root:  TreeReduction(self.all_parsers__, self.early_tree_reduction__)
-- 
2.43.0


From 715af7b51e7bfb2a0c8dc7d8daa94b2c2953c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 31/68] fix: the order in which the stages of a pipeline are
 run does not depend on the hash seed

---
 DHParser/pipeline.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 96627e0..1513b53 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -33,7 +33,6 @@ algorithmically.
 
 from __future__ import annotations
 
-import functools
 
 from functools import partial
 from typing import Set, Union, Any, Dict, List, Tuple, Iterable, Optional, Sequence, NamedTuple, \
@@ -243,16 +242,6 @@ def run_pipeline(junctions: Set[Junction],
     """
     import copy
 
-    def cmp_junctions(a, b) -> int:
-        if a[-1] == b[0]:
-            return -1
-        if b[-1] == a[0]:
-            return 1
-        if b[-1] > a[-1]:
-            return -1
-        else:
-            return 0
-
     def verify_stage(given_stage, junction, field, further_info=''):
         if not given_stage:  return  # verification is considered as turned off
         assert field in (0, 2)
@@ -298,13 +287,22 @@ def run_pipeline(junctions: Set[Junction],
     t_to_j = {normalize_name(j[-1]): normalize_junction(j) for j in junctions}
     target_stages = {normalize_name(t) for t in target_stages}
     source_stages = {normalize_name(s): source_stages[s] for s in source_stages}
+
+    def distance(stage: str) -> int:
+        """Returns the number of junctions that lead from a source-stage to `stage`."""
+        d = 0
+        while stage in t_to_j and stage not in source_stages and d <= len(t_to_j):
+            stage = t_to_j[stage][0]
+            d += 1
+        return d
+
     steps = []
     targets = target_stages.copy()
     already_reached = targets | source_stages.keys()
     while targets:
         try:
             j_sequence = [t_to_j[t] for t in targets if t not in source_stages]
-            j_sequence.sort(key=functools.cmp_to_key(cmp_junctions))
+            j_sequence.sort(key=lambda j: (distance(j[-1]), j[-1]))
             steps.append(j_sequence)
         except KeyError as e:
             raise AssertionError(f"{e.args[0]} is not a valid target.")
@@ -384,7 +382,7 @@ def full_pipeline(source: str,
     cst, msgs, _ = compile_source(source, preprocessor_factory(), parser_factory(),
                                   start_parser=start_parser, cancel_query=cancel_query)
     if has_errors(msgs, FATAL):
-        return {ts: (cst, msgs) for ts in target_stages}
+        return {ts: (cst, msgs) for ts in sorted(target_stages)}
     return run_pipeline(junctions, {cst.stage: cst}, target_stages,
                         cancel_query=cancel_query)
 
-- 
2.43.0


From d2e8d2f3de09f92d47b37783d3e29c8a9a9c350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 32/68] fix: the errors of a node are listed in the order in
 which they were added

---
 DHParser/nodetree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index a2449f2..74eab8c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3158,7 +3158,8 @@ class RootNode(Node):
         for pos, ids in self.error_positions.items():   # TODO: use bisect here...
             if start_pos <= pos < end_pos:
                 error_node_ids.update(ids)
-        for nid in error_node_ids:
+        for nid in self.error_nodes:  # not error_node_ids, because the order matters
+            if nid not in error_node_ids:  continue
             if nid == node_id:
                 # add the node's errors
                 errors.extend(self.error_nodes[nid])
-- 
2.43.0


From a23332e5719c18d2b03b128cb275ed78e0ad15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 33/68] fix: the errors of the transformation-tests are listed
 in a fixed order

---
 DHParser/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 142d1a5..3974449 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -821,7 +821,7 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                     add_errors_to_errata([err], '?', test_name, parser_name)
                     targets = dict()
                 t_errors: Dict[str, List[Error]] = {}
-                for stage in list(transformation_stages) + [t for t in targets if t in show]:
+                for stage in sorted(transformation_stages) + [t for t in targets if t in show]:
                     try:
                         tests.setdefault(f'__{stage}__', {})[test_name] = targets[stage][0]
                         t_errors[stage] = [e for e in targets[stage][1] if e not in old_errors]
@@ -875,7 +875,7 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                         write(infostr + ("OK" if len(errata) == errflag else "FAIL"))
 
             if len(errata) == errflag and transformation_stages:
-                for stage in transformation_stages:
+                for stage in sorted(transformation_stages):
                     try:
                         data = extract_data(targets[stage][0])
                         if isinstance(data, Node):
-- 
2.43.0


From c1da7321806d1effdef192f63ae161d941569626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 34/68] fix: cached_load recognises its own cache in the next
 run

---
 DHParser/toolkit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 609b211..5c73aeb 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1218,7 +1218,7 @@ def cached_load(file_name: str, deserialize: DeserializeFunc, cachedir: str = "~
             if cachedir:
                 with open(file_name, 'r', encoding='utf-8') as f:
                     source = f.read()
-                if hash_data == hash(source):
+                if hash_data == md5(source):
                     return data
             else:
                 return data
@@ -1230,7 +1230,7 @@ def cached_load(file_name: str, deserialize: DeserializeFunc, cachedir: str = "~
             source = f.read()
     data = deserialize(typing.cast(str, source))
     with open(cache_name, 'wb') as f:
-        pickle.dump((hash(source), data), f)
+        pickle.dump((md5(source), data), f)
     return data
 
 
-- 
2.43.0


From 7fca8070e88525dbb22fc97b0edc46a7e5c1a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 35/68] fix: messages of exceptions do not depend on the hash
 seed

---
 DHParser/nodetree.py | 2 +-
 DHParser/pipeline.py | 7 ++++---
 DHParser/testing.py  | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 74eab8c..35ffc8a 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2638,7 +2638,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             s = how if how == switch else (how + '/' + switch)
             raise ValueError('Unknown serialization "%s". Allowed values are either: %s or : %s'
                              % (s, "ast, cst, default",
-                                ", ".join(ALLOWED_PRESET_VALUES['default_serialization'])))
+                                ", ".join(sorted(ALLOWED_PRESET_VALUES['default_serialization']))))
 
     # Export and import as Element-Tree ###
 
diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 1513b53..f9404f1 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -196,7 +196,7 @@ def as_graph(junctions: Iterable[Junction]) -> PipeTree:
     diff = srcs - dsts
     if len(diff) > 1:
         raise ValueError('More than one origin stage within the set of junctions: '
-                         + str(diff))
+                         + str(sorted(diff)))
     elif len(diff) < 1:
         raise ValueError('No origin stage found in the set of junctions! (The '
                          'connected junctions should form a tree, but there '
@@ -315,8 +315,9 @@ def run_pipeline(junctions: Set[Junction],
                 except ValueError:
                     pass
     if not (target_stages <= already_reached):
-        raise ValueError(f'Target-stages: {target_stages - already_reached} '
-                         f'cannot be reached with junctions: {junctions}.')
+        raise ValueError(f'Target-stages: {sorted(target_stages - already_reached)} '
+                         f'cannot be reached with junctions: '
+                         f'{sorted((j[0], j[-1]) for j in junctions)}.')
     sources = [j[0] for step in steps for j in step]
     disposables = {s for s in set(sources) if s not in target_stages and sources.count(s) <= 1}
     steps.reverse()
diff --git a/DHParser/testing.py b/DHParser/testing.py
index 3974449..3431770 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -740,10 +740,10 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                 del tests[key]
 
         transformation_stages = {key for key in tests if key not in {'match', 'fail'}}
-        for stage in transformation_stages:
+        for stage in sorted(transformation_stages):
             transformation_tests = set(tests[stage].keys())
             if not {clean_key(k) for k in transformation_tests} <= match_test_keys:
-                raise AssertionError(f'{stage}-tests {transformation_tests - match_test_keys}'
+                raise AssertionError(f'{stage}-tests {sorted(transformation_tests - match_test_keys)}'
                                      ' lack corresponding match-tests.')
         # cst and ast will be treated separately in the following and are thus not
         # needed any more in the list
-- 
2.43.0


From 36fa9ce69f2974488effbc0c54ad546fad2aa083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 36/68] fix: Compiler keeps the cancel query that was assigned
 before the call

compile_source() and run_pipeline() assign the query to the attribute and then call the
compiler without it, so that compilation could never be cancelled.
---
 DHParser/compile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index e298bc7..70a43aa 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -260,7 +260,8 @@ class Compiler:
         if self._dirty_flag:
             self.reset()
         self._dirty_flag = True
-        self.cancel_query = cancel_query
+        if cancel_query is not None:
+            self.cancel_query = cancel_query
         self.tree = root if isinstance(root, RootNode) else RootNode(root)
         self.prepare(self.tree)
         try:
-- 
2.43.0


From 23384abedfda0424ca2e4b0919e4ba0ed6f0fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 37/68] fix: hand the cancel query to the transformer, also if
 there have been no errors

---
 DHParser/compile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 70a43aa..2da7c5c 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -527,12 +527,12 @@ def compile_source(source: str,
 
         # AST-transformation
 
+        if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
         if is_error(syntax_tree.error_flag):
             # catch Python exception, because if an error has occurred
             # earlier, the syntax tree might not look like expected,
             # which could (fatally) break AST transformations.
             try:
-                if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
                 syntax_tree = transformer(syntax_tree)
             except Exception as e:
                 syntax_tree.new_error(syntax_tree,
-- 
2.43.0


From b8e57f435e2246dd2620e18337e0ee67fadc3102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 38/68] fix: run_pipeline() reports its own cancellation among
 the errors of the stage

---
 DHParser/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index f9404f1..c614d44 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -349,9 +349,10 @@ def run_pipeline(junctions: Set[Junction],
                     elif hasattr(transformation, 'cancel_query__'):
                         transformation.cancel_query__ = cancel_query
                     results[t] = process_tree(transformation, tree)  # TODO: pass cancel query, here
-                    errata[t] = copy.copy(tree.errors_sorted)
-                    if cancel_query is not None and cancel_query():
+                    if cancel_query is not None and not is_fatal(tree.error_flag) \
+                            and cancel_query():
                         tree.new_error(tree, "Pipeline-processing canceled!", CANCELED)
+                    errata[t] = copy.copy(tree.errors_sorted)
                     if is_fatal(tree.error_flag):
                         cancel = True
                         break
-- 
2.43.0


From ae6b6d35bb57495e105467a807dd18b17f5e3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 39/68] fix: cancellation while parsing an empty document is
 reported as error

---
 DHParser/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 565c8bd..54d975b 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2039,6 +2039,10 @@ class Grammar:
                 result, _ = parser(0)
             except ParserError as pe:
                 result = pe.node
+            except CancelError as ce:
+                result = Node(EMPTY_PTYPE, '').with_pos(0)
+                self.tree__.new_error(
+                    result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
             if result is None:
                 result = Node(ZOMBIE_TAG, '').with_pos(0)
                 if lookahead_failure_only(parser):
-- 
2.43.0


From 10a1af0144b135e78dcc573a0ad71e18bd42960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 40/68] fix: poll the cancel query, if the tracer is set, but
 history tracking turned off

---
 DHParser/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DHParser/trace.py b/DHParser/trace.py
index e7e0f67..b7ce950 100644
--- a/DHParser/trace.py
+++ b/DHParser/trace.py
@@ -157,7 +157,10 @@ def trace_history(self: Parser, location: cython.int) -> Tuple[Optional[Node], c
             if location <= -INFINITE:  location = 0
             return self.visited[-location]
         try:
-            node, location = self._parse(location)  # <===== call to the actual parser!
+            if grammar.cancel_query__ is not None:
+                node, location = cancel_proxy(self, location)
+            else:
+                node, location = self._parse(location)  # <===== call to the actual parser!
         except ParserError as pe:
             raise pe
         return node, location
-- 
2.43.0


From ced75aaa7399dbe7e1c3816f59757b5b1921f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 41/68] fix: tracing and cancel query do not displace one
 another

Resetting the cancel query removed the tracer from the leaf parsers, removing the tracer
left the grammar without polling, and a tracer could not be set after a cancel query.
---
 DHParser/parse.py | 5 +++--
 DHParser/trace.py | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 54d975b..8566e4f 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2271,11 +2271,12 @@ class Grammar:
 
 
     def set_cancel_query__(self):
-        if self.cancel_query__ != self.cancel_query_last__:
+        if self.cancel_query__ is not None or self.cancel_query_last__ is not None:
             for p in self.all_parsers__:
                 if isinstance(p, LeafParser):
                     if self.cancel_query__ is None:
-                        p.set_proxy(None)
+                        if p._parse_proxy.__name__ == 'cancel_proxy':
+                            p.set_proxy(None)
                     elif p._parse_proxy == p._parse:
                         p.set_proxy(cancel_proxy)
                     else:
diff --git a/DHParser/trace.py b/DHParser/trace.py
index b7ce950..a234065 100644
--- a/DHParser/trace.py
+++ b/DHParser/trace.py
@@ -91,6 +91,8 @@ def set_tracer(parsers: Union[Grammar, Parser, Iterable[Parser]], tracer: Option
             pivot._grammar.resume_notices__ = True
         for parser in parsers:
             if parser.ptype != ':Forward':
+                if tracer is not None and parser._parse_proxy.__name__ == 'cancel_proxy':
+                    parser.set_proxy(None)  # trace_history polls the cancel query itself
                 parser.set_proxy(tracer)
 
 
-- 
2.43.0


From caaf7ede44f35c89d64cee2f0222a9e1972861a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 42/68] fix: compile_src() of generated parser-scripts passes
 the cancel query on

---
 DHParser/templates/DSLParser.pyi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index 1bbc04a..2e8793b 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -91,7 +91,7 @@ def compile_src(source: str,
         target-stage selected by parameter "target" and of the potentially
         empty list of errors.
     """
-    full_compilation_result = pipeline(source, target, start_parser)
+    full_compilation_result = pipeline(source, target, start_parser, cancel_query=cancel_query)
     return full_compilation_result[target]
 
 
-- 
2.43.0


From 35266c8c0efb1bb0bab03a6cdc159031e5f6cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 43/68] fix: parsing errors do not turn memoization on again,
 when variables have been captured

---
 DHParser/parse.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 8566e4f..e3899ba 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -767,6 +767,8 @@ class Parser:
             try:
                 node, next_location = self._parse_proxy(location)
             except ParserError as pe:
+                if save_suspend_memoization:
+                    grammar.suspend_memoization__ = True
                 # catching up with parsing after an error occurred
                 node, next_location = self._handle_parsing_error(pe, location)
 
@@ -5255,7 +5257,12 @@ class Forward(UnaryParser):
             grammar.suspend_memoization__ = False
             history_pointer = len(grammar.history__)
 
-            result = self.parser(location)
+            try:
+                result = self.parser(location)
+            except ParserError:
+                if save_suspend_memoization:
+                    grammar.suspend_memoization__ = True
+                raise
 
             if result[0] is not None:
                 # keep calling the (potentially left-)recursive parser and increase
@@ -5276,7 +5283,12 @@ class Forward(UnaryParser):
                     # occurred. Big topic...)
                     # don't carry error/resumption-messages over to the next iteration
                     # grammar.most_recent_error__ = None
-                    next_result = self.parser(location)
+                    try:
+                        next_result = self.parser(location)
+                    except ParserError:
+                        if save_suspend_memoization:
+                            grammar.suspend_memoization__ = True
+                        raise
 
                     # discard next_result if it is not the longest match and return
                     if next_result[1] <= result[1]:  # also true, if no match
@@ -5430,7 +5442,12 @@ class Ref(LateBindingUnary):
             grammar.suspend_memoization__ = False
             history_pointer = len(grammar.history__)
 
-            result = self.parser(location)
+            try:
+                result = self.parser(location)
+            except ParserError:
+                if save_suspend_memoization:
+                    grammar.suspend_memoization__ = True
+                raise
 
             if result[0] is not None:
                 # keep calling the (potentially left-)recursive parser and increase
@@ -5451,7 +5468,12 @@ class Ref(LateBindingUnary):
                     # occurred. Big topic...)
                     # don't carry error/resumption-messages over to the next iteration
                     # grammar.most_recent_error__ = None
-                    next_result = self.parser(location)
+                    try:
+                        next_result = self.parser(location)
+                    except ParserError:
+                        if save_suspend_memoization:
+                            grammar.suspend_memoization__ = True
+                        raise
 
                     # discard next_result if it is not the longest match and return
                     if next_result[1] <= result[1]:  # also true, if no match
-- 
2.43.0


From 01c5fc6c92d16f4c6348d07bf3025591609bdc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 44/68] fix: Forward and Ref can be tried again at a location
 after a parsing error has passed through

---
 DHParser/parse.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index e3899ba..e313736 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5260,6 +5260,8 @@ class Forward(UnaryParser):
             try:
                 result = self.parser(location)
             except ParserError:
+                # allow another attempt at this location
+                del self.recursion_counter[location]
                 if save_suspend_memoization:
                     grammar.suspend_memoization__ = True
                 raise
@@ -5286,6 +5288,8 @@ class Forward(UnaryParser):
                     try:
                         next_result = self.parser(location)
                     except ParserError:
+                        # allow another attempt at this location
+                        del self.recursion_counter[location]
                         if save_suspend_memoization:
                             grammar.suspend_memoization__ = True
                         raise
@@ -5445,6 +5449,8 @@ class Ref(LateBindingUnary):
             try:
                 result = self.parser(location)
             except ParserError:
+                # allow another attempt at this location
+                del self.recursion_counter[location]
                 if save_suspend_memoization:
                     grammar.suspend_memoization__ = True
                 raise
@@ -5471,6 +5477,8 @@ class Ref(LateBindingUnary):
                     try:
                         next_result = self.parser(location)
                     except ParserError:
+                        # allow another attempt at this location
+                        del self.recursion_counter[location]
                         if save_suspend_memoization:
                             grammar.suspend_memoization__ = True
                         raise
-- 
2.43.0


From 95392994883bc7e59a6b427e7aa92d68ff77c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 45/68] fix: Forward and Ref try again at a location where they
 did not match, if this has not been memoized

---
 DHParser/parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index e313736..2672045 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5319,6 +5319,9 @@ class Forward(UnaryParser):
                     last_history_state = grammar.history__[history_pointer:len(grammar.history__)]
                     result = next_result
                     depth += 1
+            else:
+                # allow another attempt at this location, if the match is not memoized
+                del self.recursion_counter[location]
             # grammar.suspend_memoization__ = save_suspend_memoization \
             #     or location <= (grammar.last_rb__loc__ + int(text._len == result[1]._len))
             grammar.suspend_memoization__ = save_suspend_memoization  #  = is_context_sensitive(self.parser)
@@ -5508,6 +5511,9 @@ class Ref(LateBindingUnary):
                     last_history_state = grammar.history__[history_pointer:len(grammar.history__)]
                     result = next_result
                     depth += 1
+            else:
+                # allow another attempt at this location, if the match is not memoized
+                del self.recursion_counter[location]
             # grammar.suspend_memoization__ = save_suspend_memoization \
             #     or location <= (grammar.last_rb__loc__ + int(text._len == result[1]._len))
             grammar.suspend_memoization__ = save_suspend_memoization  #  = is_context_sensitive(self.parser)
-- 
2.43.0


From 250ba8bb31787e3dd14fda63f998d768ab790e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 46/68] fix: Forward and Ref keep their recursion depth, when a
 parsing error passes through

---
 DHParser/parse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 2672045..e822788 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5249,8 +5249,10 @@ class Forward(UnaryParser):
                 result = None, location
             else:
                 self.recursion_counter[location] = depth - 1
-                result = self.parser(location)
-                self.recursion_counter[location] = depth  # allow moving back and forth
+                try:
+                    result = self.parser(location)
+                finally:
+                    self.recursion_counter[location] = depth  # allow moving back and forth
         else:
             self.recursion_counter[location] = 0  # fail on the first recursion
             save_suspend_memoization = grammar.suspend_memoization__
@@ -5441,8 +5443,10 @@ class Ref(LateBindingUnary):
                 result = None, location
             else:
                 self.recursion_counter[location] = depth - 1
-                result = self.parser(location)
-                self.recursion_counter[location] = depth  # allow moving back and forth
+                try:
+                    result = self.parser(location)
+                finally:
+                    self.recursion_counter[location] = depth  # allow moving back and forth
         else:
             self.recursion_counter[location] = 0  # fail on the first recursion
             save_suspend_memoization = grammar.suspend_memoization__
-- 
2.43.0


From 2e878631a11dc04a2e95f045ec0e71ea3ca142ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 47/68] fix: traverse() must apply the filters of a table entry
 to the first node of its kind, too

---
 DHParser/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 8cee73e..9620598 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -441,7 +441,8 @@ def traverse(tree: Node,
             all_filters = filters + more_filters
             if BLOCK_CHILDREN in all_filters:
                 all_filters = [BLOCK_CHILDREN]
-            cache[key] = (all_filters, sequence)
+            filters = all_filters
+            cache[key] = (filters, sequence)
 
         children = node._children
         for filter in filters:
-- 
2.43.0


From 370a9ea5ca3ad0077c78db8d723dc02b7b12c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 48/68] fix: attribute-visitors must not be called twice for
 nodes handled by the fallback-compiler

---
 DHParser/compile.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 2da7c5c..cd5310b 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -314,8 +314,6 @@ class Compiler:
                     if nd is not None and nd.name != EMPTY_PTYPE:
                         result.append(nd)
                 node.result = tuple(result)
-        if self.has_attribute_visitors:
-            self.visit_attributes(node)
         return node
 
     def find_compilation_method(self, node: Node) -> CompileMethod:
-- 
2.43.0


From d320a20b3a60daa504e440b66818771cf48962ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 49/68] fix: an AttributeError raised inside an
 attribute-visitor must not be swallowed

---
 DHParser/compile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index cd5310b..401cb44 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -282,9 +282,9 @@ class Compiler:
             for attribute, value in tuple(node.attr.items()):
                 try:
                     attribute_visitor = self.__getattribute__(self.attr_visitor_name(attribute))
-                    attribute_visitor(node, value)
                 except AttributeError:
-                    pass
+                    continue
+                attribute_visitor(node, value)
             self.path.pop()
 
     def fallback_compiler(self, node: Node) -> Any:
-- 
2.43.0


From 3e628be6e4ca02608cd26d5ddeb4ea86f0151d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 50/68] fix: recompile_grammar() must notify when it recompiles
 a directory, too

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 76f2b07..25c4688 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -662,7 +662,7 @@ def recompile_grammar(ebnf_filename: str,
         success = True
         for entry in os.listdir(ebnf_filename):
             if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                success = success and recompile_grammar(entry, parser_name, force)
+                success = success and recompile_grammar(entry, parser_name, force, notify)
         return success
 
     base, _ = os.path.splitext(ebnf_filename)
-- 
2.43.0


From 8d31f9b165ea364a41045e49ab15e903564ecd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 51/68] fix: create_scripts() must observe its options when
 called for a directory

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 25c4688..12b6326 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -741,7 +741,7 @@ def create_scripts(ebnf_filename: str,
     if os.path.isdir(ebnf_filename):
         for entry in os.listdir(ebnf_filename):
             if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                create_scripts(entry)
+                create_scripts(entry, parser_name, server_name, app_name, overwrite)
         return
 
     base, _ = os.path.splitext(ebnf_filename)
-- 
2.43.0


From cdad5520d9e747a7067d0be4e1b09584c4b97cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 52/68] fix: collapse_children_if() must apply the merge-rule
 on all levels

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 9620598..77cc5b4 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1262,7 +1262,7 @@ def collapse_children_if(path: Path,
     for child in node._children:
         if condition(path + [child]):
             if child._children:
-                collapse_children_if(path + [child], condition, target_name)
+                collapse_children_if(path + [child], condition, target_name, merge_rule)
                 for c in child._children:
                     if condition(path + [child, c]):
                         package.append(c)
-- 
2.43.0


From e039d610b8988c0ed798f01398f488e22a3d1e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 53/68] fix: ExecutorWrapper.map() must hand on timeout and
 chunksize

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 5c73aeb..7f4a4f5 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1868,7 +1868,7 @@ class ExecutorWrapper:
     def map(self, fn, *iterables, timeout=None, chunksize=1):
         pid = CONFIG_PRESET['main_pid'] or str(os.getpid())
         wrapper = functools.partial(mapped_wrapper, fn=fn, pid=pid)
-        return self.executor.map(wrapper, *iterables)
+        return self.executor.map(wrapper, *iterables, timeout=timeout, chunksize=chunksize)
 
     def shutdown(self, wait=True, *, cancel_futures=False):
         return self.executor.shutdown(wait=wait, cancel_futures=cancel_futures)
-- 
2.43.0


From 127b5656006c4ce8995d8869b2d56ee8838e2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 54/68] fix: Server.run_tcp_server() must use the loop that has
 been passed to it

---
 DHParser/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 7d65ed6..c4d288d 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -216,7 +216,7 @@ SERVER_REPLY_TIMEOUT = 3  # seconds
 
 def asyncio_run(coroutine: Awaitable, loop=None) -> Any:
     """Backward compatible version of Pyhon3.7's `asyncio.run()`"""
-    if sys.version_info >= (3, 7, 0):
+    if loop is None and sys.version_info >= (3, 7, 0):
         return asyncio.run(coroutine)
     else:
         if loop is None:
@@ -1852,7 +1852,7 @@ class Server:
         if self.echo_log:
             print("Server logging is on.")
         try:
-            asyncio_run(self.serve(host, port))
+            asyncio_run(self.serve(host, port), loop)
         except KeyboardInterrupt:
             print("KeyboardInterrupt")
         except asyncio.CancelledError as e:
-- 
2.43.0


From 97c13cd1f62a078edf58daeee4119ed2af5440eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 55/68] fix: select_path_if() changed the paths it had yielded
 afterwards

---
 DHParser/nodetree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 35ffc8a..7b30c08 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4122,14 +4122,14 @@ def select_path_if(start_path: Path,
     path = start_path.copy()
     while path:
         if include_root:
-            yield from recursive(path)
+            yield from recursive(path.copy())
         else:
             include_root = True
         node = path.pop()
         edge, delta = (0, -1) if reverse else (-1, 1)
         while path and node is path[-1]._children[edge]:
             if match_func(path):
-                yield path
+                yield path.copy()
             node = path.pop()
         if path:
             parent = path[-1]
-- 
2.43.0


From a115acc58de9b88785faec56b5bd47f0151bb360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:26 +0000
Subject: [PATCH 56/68] fix: process_tree() must report a crash that has no
 client-code frame

---
 DHParser/compile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 401cb44..ef26e3f 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -612,6 +612,7 @@ def process_tree(tp: CompilerFunc, tree: RootNode) -> Any:
                 node = (getattr(tp, 'path', [tree]) or [tree])[-1]
                 import traceback
                 st = traceback.format_list(traceback.extract_tb(e.__traceback__))
+                i = 1
                 for i in range(1, len(st)):  # find last call in client-code
                     m = RX_STACKTRACE_FNAME.match(st[-i])
                     if m and os.path.basename(m.group(1)) not in DHPARSER_FILES:
-- 
2.43.0


From c44ebc3317677cc66afa228b6b0cdce9ccc8cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:26 +0000
Subject: [PATCH 57/68] fix: deprecation_warning() lost its exception when
 presets are being accessed

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 7f4a4f5..7121ed4 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -317,7 +317,7 @@ def deprecation_warning(message: str):
         except DeprecationWarning as e:
             try:
                 deprecation_policy = get_config_value('deprecation_policy')
-            except AssertionError as e:
+            except AssertionError:
                 deprecation_policy = 'warn'
             if deprecation_policy == 'warn':
                 import traceback
-- 
2.43.0


From 7fe1d43fe19d2266f1b4f430a8a823c4e72548d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:26 +0000
Subject: [PATCH 58/68] fix: has_ancestor() must not crash on an empty path

---
 DHParser/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 77cc5b4..b616700 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -824,6 +824,7 @@ def has_ancestor(path: Path,
     """
     if until:
         if isinstance(until, str):  until = {until}
+        i = 0
         for i in range(len(path) - 1, -1, -1):
             if path[i].name in until:
                 break
-- 
2.43.0


From adf0301f0cc36218c79abaae2958c9f5d6bb78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:26 +0000
Subject: [PATCH 59/68] fix: grammar_unit() must survive crashing or
 interrupted fail-tests

---
 DHParser/testing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 3431770..00cc741 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -931,6 +931,7 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
 
         for test_name, test_code in tests.get('fail', dict()).items():
             errflag = len(errata)
+            clean_test_name = str(test_name).replace('*', '')
             try:
                 cst = parser(test_code, parser_name, complete_match=True)
                 # complete_math=True, because fail-tests are specifically needed
@@ -949,6 +950,8 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                     parser_name, test_name))
                 tests.setdefault('__err__', {})[test_name] = errata[-1]
             except Exception as e:
+                node = Node(ZOMBIE_TAG, "").with_pos(0)
+                cst = RootNode(node).new_error(node, str(e))
                 errata.append('Fail-test "%s" for parser "%s" failed with:\n%s' %
                               (test_name, parser_name, str(e)))
             if 'AST' in tests or report:
-- 
2.43.0


From 5af6c81d73dc6d4d7606a795ad9016590145647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 60/68] fix: DSLServer-template: command line options --logging
 and function calls crashed with undefined names

---
 DHParser/templates/DSLServer.pyi | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index a87c06b..37c53af 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -18,6 +18,7 @@ try:
     servername = os.path.splitext(scriptname)[0]
 except NameError:
     scriptdir = ''
+    scriptpath = ''
     servername = 'DHParserServer'
 
 STOP_SERVER_REQUEST_BYTES = b"__STOP_SERVER__"   # hardcoded in order to avoid import from DHParser.server
@@ -512,9 +513,8 @@ async def start_server_daemon(host, port, requests, timeout=SERVER_REPLY_TIMEOUT
     return results
 
 
-def parse_logging_args(args):
+def parse_logging_args(args, host, port):
     if args.logging or args.logging is None:
-        global host, port
         if port >= 0 and host:
             echo = repr('ECHO_ON') if isinstance(args.startserver, list) else repr('ECHO_OFF')
         else:  # echoing does not work with stream connections!
@@ -571,7 +571,7 @@ def main():
         if port >= 0 or host:
             echo('Specifying host and port when using streams as transport does not make sense')
             sys.exit(1)
-        log_path, _ = parse_logging_args(args)
+        log_path, _ = parse_logging_args(args, host, port)
         run_server('', -1, log_path)
         sys.exit(0)
 
@@ -606,11 +606,11 @@ def main():
                 port = int(portstr)
             except ValueError:
                 parser.error('port must be a number!')
-        log_path, _ = parse_logging_args(args)
+        log_path, _ = parse_logging_args(args, host, port)
         sys.exit(run_server(host, port, log_path))
 
     elif args.startdaemon:
-        log_path, log_request = parse_logging_args(args)
+        log_path, log_request = parse_logging_args(args, host, port)
         asyncio.run(start_server_daemon(host, port, [log_request] if log_request else []))
 
     elif args.stopserver:
@@ -622,12 +622,13 @@ def main():
         verbose(result)
 
     elif args.logging:
-        log_path, request = parse_logging_args(args)
+        log_path, request = parse_logging_args(args, host, port)
         verbose(asyncio_run(single_request(request, host, port)))
 
     elif args.file:
         timeout = SERVER_REPLY_TIMEOUT
         file_name = args.file
+        file_names = file_name
         if not file_name.endswith(')'):
             # argv does not seem to be a command (e.g. "identify()") but a file name or path
             if args.more_files or args.out or os.path.isdir(file_name):
@@ -637,7 +638,7 @@ def main():
                 timeout = 3600 * 24 * 365  # timout in batch mode: one year!
             else:
                 file_names = os.path.abspath(file_name)
-        log_path, log_request = parse_logging_args(args)
+        log_path, log_request = parse_logging_args(args, host, port)
         requests = [log_request, file_names] if log_request else [file_names]
         result = asyncio_run(start_server_daemon(host, port, requests, timeout))[-1]
         if len(result) >= DATA_RECEIVE_LIMIT:
-- 
2.43.0


From 458863fff634341fc5d3553c893446cc8cbbbbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 61/68] fix: DSLApp-template: reading an unreadable file
 crashed after the error message

---
 DHParser/templates/DSLApp.pyi | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/templates/DSLApp.pyi b/DHParser/templates/DSLApp.pyi
index f63852f..e90d72c 100644
--- a/DHParser/templates/DSLApp.pyi
+++ b/DHParser/templates/DSLApp.pyi
@@ -764,6 +764,7 @@ class DSLApp(tk.Tk):
         failure = not bool(path)
         config = configparser.ConfigParser()
         config.optionxform = lambda optionstr: optionstr
+        fdata = ''
         if os.path.exists(path):
             try:
                 with open(path, 'r', encoding='utf-8') as f:
-- 
2.43.0


From 20b9f4a8b75f2eeac1e6c8d41d678e723481a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 62/68] fix: star import from heuristic.py failed, because
 __all__ was not a tuple

---
 DHParser/ebnf_flavors/heuristic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf_flavors/heuristic.py b/DHParser/ebnf_flavors/heuristic.py
index 1ab926a..f8eeeb6 100755
--- a/DHParser/ebnf_flavors/heuristic.py
+++ b/DHParser/ebnf_flavors/heuristic.py
@@ -59,7 +59,7 @@ from DHParser.parse import Grammar, PreprocessorToken, Whitespace, Drop, AnyChar
     last_value, matching_bracket, optional_last_value, SmartRE, Always, Never, ParseFunc
 from DHParser.toolkit import re, Tuple, List, INFINITE
 
-__all__ = ('HeuristicEBNFGrammar')
+__all__ = ('HeuristicEBNFGrammar',)
 
 
 #######################################################################
-- 
2.43.0


From e7c885d80f4d3a495d0ff961178197591f1b7b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:28 +0000
Subject: [PATCH 63/68] fix: optimization "rearrange_alternative" had no effect
 because of a misspelled name

---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index b69efe7..f127809 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -846,7 +846,7 @@ def rearrange_expression(path: Path):
         return   # expression node has already been replaced...
     globals = get_globals(path)
     optimizations = globals['optimizations']
-    if not any(opt in optimizations for opt in ('rearrange_anternative', 'alternative')):
+    if not any(opt in optimizations for opt in ('rearrange_alternative', 'alternative')):
         return
     lws = globals['literalws']
     if lws not in ('left', 'right', 'both'):
-- 
2.43.0


From 9b7dab90e82055f8172fd12b7fdfd510963ec8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:28 +0000
Subject: [PATCH 64/68] fix: process_file iterated the characters of the
 default serialization

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 12b6326..5ec1336 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -848,7 +848,7 @@ def process_file(source: str, out_dir: str,
             path = os.path.join(out_dir, t, '.'.join([dest_name, t]))
             if isinstance(result, Node):
                 slist = serializations.get(t, serializations.get(
-                    '*', get_config_value('default_serialization')))
+                    '*', [get_config_value('default_serialization')]))
                 for s in slist:
                     s = s.lower()  # normalize file-extensions:
                     if s == 'default':  s = get_config_value('default_serialization').lower()
-- 
2.43.0


From 408ac9fea74e32d2811ab860e6eef907620d6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:28 +0000
Subject: [PATCH 65/68] fix: add_config_values() stored values that are not
 allowed

---
 DHParser/configuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 31e3fd4..2f29313 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -501,6 +501,8 @@ def add_config_values(configuration: dict):
     :param configuration: additional configuration values
     """
     with get_access_lock():
+        for key, value in configuration.items():
+            validate_value(key, value)
         cfg = _config_dict()
         cfg.update(configuration)
 
-- 
2.43.0


From 531ed6ac3503417aebc7a0ae94c05289d84d7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:11 +0000
Subject: [PATCH 66/68] fix: compiling a one-line regular expression with the
 flag (?x) crashed

---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index f127809..c0e3944 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3476,7 +3476,7 @@ class EBNFCompiler(Compiler):
         pattern = repr(pattern)
         if pattern.find('(?x)') >= 0:
             m = re.search(r'\\n[ \t]*', pattern)
-            indent = len(m.group(0)) - 2
+            indent = len(m.group(0)) - 2 if m else 0
             pattern = re.sub(r'\\n[ \t]*', '\\\\n\n', pattern)
             parts = pattern.split('\n')
             pattern = wrap_str_literal(parts, offset = len(REClass) + 1 + indent)
-- 
2.43.0


From fedff54004f7acd2ef1dc15adc14cf1b068b77d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:11 +0000
Subject: [PATCH 67/68] fix: properties of LazyRE compiled the expression
 without its flags

---
 DHParser/toolkit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 7121ed4..b1e4b3f 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -532,31 +532,31 @@ class LazyRE:
     @property
     def Pattern(self):
         if self.rx is None:
-            self.rx = re.compile(self.regexp)
+            self.rx = re.compile(self.regexp, self.re_flags)
         return self.rx
 
     @property
     def pattern(self):
         if self.rx is None:
-            self.rx = re.compile(self.regexp)
+            self.rx = re.compile(self.regexp, self.re_flags)
         return self.rx.pattern
 
     @property
     def flags(self):
         if self.rx is None:
-            self.rx = re.compile(self.regexp)
+            self.rx = re.compile(self.regexp, self.re_flags)
         return self.rx.flags
 
     @property
     def groups(self):
         if self.rx is None:
-            self.rx = re.compile(self.regexp)
+            self.rx = re.compile(self.regexp, self.re_flags)
         return self.rx.groups
 
     @property
     def groupindex(self):
         if self.rx is None:
-            self.rx = re.compile(self.regexp)
+            self.rx = re.compile(self.regexp, self.re_flags)
         return self.rx.groupindex
 
     def search(self, *args, **kwargs):
-- 
2.43.0


From 1715dc662aecb668d40997e6a966f24d3b35e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:34 +0000
Subject: [PATCH 68/68] fix: junctions, parsers and lsp-functions passed as
 one-shot iterables were partly lost

---
 DHParser/lsp.py      | 5 +++--
 DHParser/pipeline.py | 2 ++
 DHParser/trace.py    | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/lsp.py b/DHParser/lsp.py
index ae63f90..891e581 100644
--- a/DHParser/lsp.py
+++ b/DHParser/lsp.py
@@ -6244,8 +6244,9 @@ def gen_lsp_table(lsp_funcs_or_instance: Union[Iterable[Callable], Any],
     dict_keys(['initialize', 'shutdown'])
     """
     if isinstance(lsp_funcs_or_instance, Iterable):
-        assert all(callable(func) for func in lsp_funcs_or_instance)
-        rpc_table = {gen_lsp_name(func.__name__, prefix): func for func in lsp_funcs_or_instance}
+        lsp_funcs = list(lsp_funcs_or_instance)  # functions are run through more than once
+        assert all(callable(func) for func in lsp_funcs)
+        rpc_table = {gen_lsp_name(func.__name__, prefix): func for func in lsp_funcs}
     else:
         # assume lsp_funcs_or_instance is the instance of a class
         cls = lsp_funcs_or_instance
diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index c614d44..f7b95b8 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -89,6 +89,7 @@ PipelineResult = Dict[str, Tuple[Union[RootNode, Any], List[Error]]]
 def end_points(junctions: Iterable[Junction]) -> Set[str]:
     """Returns all "final" destination stages, i.e. destinations
     that are not a source of another junction."""
+    junctions = list(junctions)  # junctions are run through more than once
     try:
         sources = { j.src for j in junctions }
     except AttributeError:
@@ -185,6 +186,7 @@ class PipeTree(NamedTuple):
 def as_graph(junctions: Iterable[Junction]) -> PipeTree:
     """Returns the junctions as a directed graph."""
     # TODO: unit-test sometimes fails!!!
+    junctions = list(junctions)  # junctions are run through more than once
     jdict = dict()
     for j in junctions:
         if j.src not in jdict:
diff --git a/DHParser/trace.py b/DHParser/trace.py
index a234065..b01092a 100644
--- a/DHParser/trace.py
+++ b/DHParser/trace.py
@@ -80,6 +80,8 @@ def set_tracer(parsers: Union[Grammar, Parser, Iterable[Parser]], tracer: Option
         parsers = parsers.all_parsers__
     elif isinstance(parsers, Parser):
         parsers = [parsers]
+    else:
+        parsers = list(parsers)  # parsers are run through more than once
     if parsers:
         pivot = next(iter(parsers))
         assert all(pivot._grammar == parser._grammar for parser in parsers)
-- 
2.43.0

