From 8f29bb93462da11fe8052da0793b4b6190f8d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:24 +0000
Subject: [PATCH 01/72] fix: report write errors when writing the output to
 stdout

With outputs of a certain size, a failing write to stdout was only noticed
while the interpreter shut down, where it got lost: the exit code was zero
although nothing was written.
---
 crazy_complete/application.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/application.py b/crazy_complete/application.py
index e03c6a6..6e56c7f 100644
--- a/crazy_complete/application.py
+++ b/crazy_complete/application.py
@@ -202,7 +202,9 @@ def write_string_to_file(string, file):
         with open(file, 'w', encoding='utf-8') as fh:
             fh.write(string)
     else:
-        print(string)
+        # Flush explicitly: write errors that occur when the interpreter exits
+        # may get lost and would leave us with an exit code of zero.
+        print(string, flush=True)
 
 
 def load_definition_file(opts):
-- 
2.43.0


From d35e0fb3cf2142bf84f9c3f992da5155291407a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:27 +0000
Subject: [PATCH 02/72] fix: keep output of Python definitions out of the
 generated script

Everything that a Python file prints while it is imported was written to
stdout and thus became a part of the generated script.
---
 crazy_complete/file_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/file_loader.py b/crazy_complete/file_loader.py
index 792cf78..93f48f8 100644
--- a/crazy_complete/file_loader.py
+++ b/crazy_complete/file_loader.py
@@ -5,6 +5,7 @@
 
 import os
 import sys
+import contextlib
 import importlib
 import tempfile
 import __main__
@@ -55,4 +56,6 @@ def import_file(file):
     if directory not in sys.path:
         sys.path.append(directory)
 
-    return importlib.import_module(module_name)
+    # The standard output is reserved for the generated script
+    with contextlib.redirect_stdout(sys.stderr):
+        return importlib.import_module(module_name)
-- 
2.43.0


From ef5c35e59d07c36a47a1d8b1bd7718e8254123f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:13 +0000
Subject: [PATCH 03/72] fix: don't succeed silently if a Python definition
 calls sys.exit()

A Python file that exits while it is imported ended crazy-complete with the
exit status of that file, usually zero, without any output. The fallback to
exec, which is prepared for this case, never worked because it looked for the
parser in the wrong module.
---
 crazy_complete/argparse_source.py | 2 +-
 crazy_complete/file_loader.py     | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index c980be0..cb9ac63 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -232,7 +232,7 @@ def load_from_file(file, parser_variable=None, parser_blacklist=()):
 
     try:
         module = file_loader.import_file(file)
-    except Exception as e:
+    except (Exception, SystemExit) as e:
         utils.warn(e)
         utils.warn(f"Failed to load `{file}` using importlib, falling back to exec")
         module = file_loader.execute_file(file)
diff --git a/crazy_complete/file_loader.py b/crazy_complete/file_loader.py
index 93f48f8..ab4f557 100644
--- a/crazy_complete/file_loader.py
+++ b/crazy_complete/file_loader.py
@@ -8,11 +8,14 @@ import sys
 import contextlib
 import importlib
 import tempfile
-import __main__
+import types
 
 
 def execute_file(file):
     '''Import file using compile + exec.'''
+    module = types.ModuleType('__crazy_complete_definition__')
+    module.__file__ = file
+
     with open(os.devnull, 'w', encoding='utf-8') as null_fh:
         sys.stdout = null_fh
         sys.stderr = null_fh
@@ -23,14 +26,14 @@ def execute_file(file):
                 compiled = compile(source, file, 'exec')
                 try:
                     # pylint: disable=exec-used
-                    exec(compiled, globals())
+                    exec(compiled, module.__dict__)
                 except SystemExit:
                     pass
         finally:
             sys.stdout = sys.__stdout__
             sys.stderr = sys.__stderr__
 
-    return __main__
+    return module
 
 
 def import_file(file):
-- 
2.43.0


From d0e69e0f105f34edc3564dab874428580b0c2e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:55 +0000
Subject: [PATCH 04/72] fix: validate definitions of nested subcommands

Only the program and its direct subcommands were validated. Invalid
definitions of deeper subcommands were accepted and produced broken scripts.
---
 crazy_complete/scheme_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index 6f55119..ca9a346 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -976,7 +976,7 @@ class DefinitionTree:
         '''Call `callback` on each node in the tree.'''
         callback(self)
         for subcommand in self.subcommands.values():
-            callback(subcommand)
+            subcommand.visit(callback)
 
     def get_all(self):
         '''Return a list of all nodes.'''
-- 
2.43.0


From 68022c1b0136644423df6e89ccf315d5bed98bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:47 +0000
Subject: [PATCH 05/72] fix: fall back to the default directory if pkg-config
 prints nothing

pkg-config succeeds and prints an empty line if a variable is not set. The
completion file was then installed to (or removed from) the root directory.
---
 crazy_complete/paths.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/paths.py b/crazy_complete/paths.py
index 83c35b8..c4c7869 100644
--- a/crazy_complete/paths.py
+++ b/crazy_complete/paths.py
@@ -34,7 +34,12 @@ def _pkg_config(args):
         raise Exception('Program `pkg-config` not found') from exc
 
     if result.returncode == 0:
-        return result.stdout.strip()
+        output = result.stdout.strip()
+
+        if not output:
+            raise Exception('Command `%s` returned nothing' % ' '.join(command))
+
+        return output
 
     raise Exception('Command `%s` failed: %s' % (
         ' '.join(command), result.stderr.strip()))
-- 
2.43.0


From 1c87574842cc1a2052677d85183dee876d9f0d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:12 +0000
Subject: [PATCH 06/72] fix: don't stop a batch after --help, --version,
 --manual or --batch

---
 crazy_complete/application.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/application.py b/crazy_complete/application.py
index 6e56c7f..03be805 100644
--- a/crazy_complete/application.py
+++ b/crazy_complete/application.py
@@ -319,8 +319,13 @@ def try_batch(args):
         utils.print_err('Running:', sys.argv[0], line)
 
         app = Application()
-        app.parse_args(shlex.split(line))
-        app.run()
+        try:
+            app.parse_args(shlex.split(line))
+            app.run()
+        except SystemExit as e:
+            # Lines like `--version` exit successfully
+            if e.code not in (None, 0):
+                raise
 
     sys.exit(0)
 
-- 
2.43.0


From d3a51d26a5ecfbf57c5b84bb76d37f5cf66eb0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 07/72] fix: load Python definitions by path and independently
 of each other

---
 crazy_complete/file_loader.py | 72 +++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/crazy_complete/file_loader.py b/crazy_complete/file_loader.py
index ab4f557..a91659c 100644
--- a/crazy_complete/file_loader.py
+++ b/crazy_complete/file_loader.py
@@ -7,7 +7,8 @@ import os
 import sys
 import contextlib
 import importlib
-import tempfile
+import importlib.machinery
+import importlib.util
 import types
 
 
@@ -36,29 +37,60 @@ def execute_file(file):
     return module
 
 
-def import_file(file):
-    '''Import file using importlib.'''
-    directory, filename = os.path.split(file)
-    if filename.lower().endswith('.py'):
-        module_name = filename[:-3]
-    else:
-        temp = tempfile.NamedTemporaryFile(mode='w',
-                                           encoding='utf-8',
-                                           suffix='.py')
+def _found_through(module_name, module, path):
+    '''Return if module has been found through one of the directories in path.'''
+    top = module_name.split('.', maxsplit=1)[0]
+    file = getattr(module, '__file__', None)
+
+    if not file:
+        return True
 
-        with open(file, 'r', encoding='utf-8') as fh:
-            temp.file.write(fh.read())
-            temp.flush()
+    for directory in path:
+        base = os.path.join(directory, top)
+        if file.startswith((base + '.', base + os.sep)):
+            return True
 
-        directory, file = os.path.split(temp.name)
-        module_name = file[:-3]
+    return False
 
-    if not directory:
-        directory = '.'
+
+@contextlib.contextmanager
+def _isolated_imports(directory):
+    '''
+    Make the modules in directory importable.
+
+    Afterwards, forget everything that has been imported from directory, as the
+    next definition file may bring other modules with the same names.
+    '''
+    saved_path = sys.path[:]
+    saved_modules = dict(sys.modules)
+    importlib.invalidate_caches()
 
     if directory not in sys.path:
         sys.path.append(directory)
 
-    # The standard output is reserved for the generated script
-    with contextlib.redirect_stdout(sys.stderr):
-        return importlib.import_module(module_name)
+    try:
+        yield
+    finally:
+        sys.path[:] = saved_path
+        for name, module in list(sys.modules.items()):
+            if name not in saved_modules and not _found_through(name, module, saved_path):
+                del sys.modules[name]
+
+
+def import_file(file):
+    '''Import file using importlib.'''
+    name = '__crazy_complete_definition__'
+    file = os.path.abspath(file)
+    loader = importlib.machinery.SourceFileLoader(name, file)
+    spec = importlib.util.spec_from_file_location(name, file, loader=loader)
+    module = importlib.util.module_from_spec(spec)
+
+    with _isolated_imports(os.path.dirname(file)):
+        # The standard output is reserved for the generated script
+        with contextlib.redirect_stdout(sys.stderr):
+            sys.modules[name] = module
+            code = loader.source_to_code(loader.get_data(file), file)
+            # pylint: disable=exec-used
+            exec(code, module.__dict__)
+
+    return module
-- 
2.43.0


From 874636b6c0a48ea08fcb0bdecc8477a80c1cddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 08/72] fix: don't modify the definition when completing file
 and directory lists

---
 crazy_complete/shell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index 0bd6990..ce59b07 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -145,6 +145,9 @@ class ShellCompleter:
     # =========================================================================
 
     def file_list(self, ctxt, trace, opts=None):
+        # Don't modify the definition of the caller
+        opts = dict(opts) if opts else None
+
         list_opts = {
             'separator': opts.pop('separator', ',') if opts else ',',
             'duplicates': opts.pop('duplicates', False) if opts else False
@@ -153,6 +156,9 @@ class ShellCompleter:
         return self.list(ctxt, trace, ['file', opts], list_opts)
 
     def directory_list(self, ctxt, trace, opts=None):
+        # Don't modify the definition of the caller
+        opts = dict(opts) if opts else None
+
         list_opts = {
             'separator': opts.pop('separator', ',') if opts else ',',
             'duplicates': opts.pop('duplicates', False) if opts else False
-- 
2.43.0


From 1d09b3b2dae34e01ec75296feed724eadff96327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:45 +0000
Subject: [PATCH 09/72] fix: read YAML and Python definitions only once

---
 crazy_complete/argparse_source.py |  8 ++++++--
 crazy_complete/file_loader.py     | 27 ++++++++++++++++-----------
 crazy_complete/yaml_source.py     | 17 ++++++++++-------
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index cb9ac63..04c1715 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -230,12 +230,16 @@ def load_from_file(file, parser_variable=None, parser_blacklist=()):
 
     # pylint: disable=broad-exception-caught
 
+    # Read the file only once. It may be a pipe, or another program may replace
+    # it in the meantime.
+    source = file_loader.read_source(file)
+
     try:
-        module = file_loader.import_file(file)
+        module = file_loader.import_file(file, source)
     except (Exception, SystemExit) as e:
         utils.warn(e)
         utils.warn(f"Failed to load `{file}` using importlib, falling back to exec")
-        module = file_loader.execute_file(file)
+        module = file_loader.execute_file(file, source)
 
     if parser_variable is not None:
         try:
diff --git a/crazy_complete/file_loader.py b/crazy_complete/file_loader.py
index a91659c..51bbff3 100644
--- a/crazy_complete/file_loader.py
+++ b/crazy_complete/file_loader.py
@@ -12,7 +12,14 @@ import importlib.util
 import types
 
 
-def execute_file(file):
+def read_source(file):
+    '''Read the source code of a Python file.'''
+
+    with open(file, 'rb') as fh:
+        return fh.read()
+
+
+def execute_file(file, source):
     '''Import file using compile + exec.'''
     module = types.ModuleType('__crazy_complete_definition__')
     module.__file__ = file
@@ -22,14 +29,12 @@ def execute_file(file):
         sys.stderr = null_fh
 
         try:
-            with open(file, 'r', encoding='utf-8') as fh:
-                source = fh.read()
-                compiled = compile(source, file, 'exec')
-                try:
-                    # pylint: disable=exec-used
-                    exec(compiled, module.__dict__)
-                except SystemExit:
-                    pass
+            compiled = compile(source, file, 'exec')
+            try:
+                # pylint: disable=exec-used
+                exec(compiled, module.__dict__)
+            except SystemExit:
+                pass
         finally:
             sys.stdout = sys.__stdout__
             sys.stderr = sys.__stderr__
@@ -77,7 +82,7 @@ def _isolated_imports(directory):
                 del sys.modules[name]
 
 
-def import_file(file):
+def import_file(file, source):
     '''Import file using importlib.'''
     name = '__crazy_complete_definition__'
     file = os.path.abspath(file)
@@ -89,7 +94,7 @@ def import_file(file):
         # The standard output is reserved for the generated script
         with contextlib.redirect_stdout(sys.stderr):
             sys.modules[name] = module
-            code = loader.source_to_code(loader.get_data(file), file)
+            code = loader.source_to_code(source, file)
             # pylint: disable=exec-used
             exec(code, module.__dict__)
 
diff --git a/crazy_complete/yaml_source.py b/crazy_complete/yaml_source.py
index 458bb32..8314f00 100644
--- a/crazy_complete/yaml_source.py
+++ b/crazy_complete/yaml_source.py
@@ -6,6 +6,7 @@ This module provides functions for creating CommandLine objects from YAML
 and vice versa.
 """
 
+import io
 import json
 import yaml
 
@@ -187,16 +188,18 @@ def replace_defines_in_documents(documents):
 def load_from_file(file):
     '''Load a YAML file and turn it into a cli.CommandLine object.'''
 
-    # First, load using normal yaml loader. It gives better error messages
-    # in case of syntax errors.
-    with open(file, 'r', encoding='utf-8') as fh:
-        dictionaries = list(yaml.safe_load_all(fh))
-
-    # Then load using extended yaml loader...
+    # Read the file only once. It may be a pipe, or another program may replace
+    # it in the meantime.
     with open(file, 'r', encoding='utf-8') as fh:
         content = fh.read()
 
-    # Validate YAML...
+    # First, load using normal yaml loader. It gives better error messages
+    # in case of syntax errors.
+    stream = io.StringIO(content)
+    stream.name = file
+    dictionaries = list(yaml.safe_load_all(stream))
+
+    # Then load using extended yaml loader and validate YAML...
     parser = ExtendedYAMLParser()
     parsed = parser.parse(content)
     parsed = replace_defines_in_documents(parsed)
-- 
2.43.0


From 71855ceef8dec18e7420246e266ac99a1036f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:32 +0000
Subject: [PATCH 10/72] fix: tell positionals before the cursor from the word
 under the cursor in Bash

---
 crazy_complete/bash.py           | 6 +++---
 crazy_complete/bash_parser.py    | 7 ++++++-
 crazy_complete/bash_parser_v2.py | 7 ++++++-
 crazy_complete/bash_when.py      | 2 +-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index 90f8f39..d813354 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -57,7 +57,7 @@ class BashCompletionGenerator:
                 if option.capture is not None:
                     local_vars.append(option.capture)
 
-        r = 'local END_OF_OPTIONS POSITIONALS\n'
+        r = 'local END_OF_OPTIONS POSITIONALS NUM_POSITIONALS\n'
 
         if local_vars:
             local_vars = algo.uniq(local_vars)
@@ -72,7 +72,7 @@ class BashCompletionGenerator:
             return None
 
         positional_num = self.subcommands.get_positional_num()
-        r  = 'if (( %i < ${#POSITIONALS[@]} )); then\n' % (positional_num - 1)
+        r  = 'if (( NUM_POSITIONALS >= %i )); then\n' % positional_num
         r += '  case "${POSITIONALS[%i]}" in\n' % (positional_num - 1)
         for subcommand in self.subcommands.subcommands:
             cmds = utils.get_all_command_variations(subcommand)
@@ -151,7 +151,7 @@ class BashCompletionGenerator:
             func = helpers.ShellFunction('parse_commandline', c)
             self.ctxt.helpers.add_function(func)
 
-            # This sets up END_OF_OPTIONS, POSITIONALS and the OPT_* variables.
+            # This sets up END_OF_OPTIONS, POSITIONALS, NUM_POSITIONALS and the OPT_* variables.
             code['command_line_parsing'] = self._generate_commandline_parsing()
 
         r  = '%s() {\n' % self.ctxt.helpers.make_completion_funcname(self.commandline)
diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index a7e6bca..63468e4 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -14,6 +14,7 @@ from .bash_parser_subcommand_code import (
 
 _PARSER_CODE = '''\
 POSITIONALS=()
+NUM_POSITIONALS=0
 END_OF_OPTIONS=0
 
 local cmd="root" argi arg i char trailing_chars
@@ -24,7 +25,9 @@ for ((argi=1; argi < cword; ++argi)); do
   case "$arg" in
     --)
       END_OF_OPTIONS=1
-      POSITIONALS+=("${words_dequoted[@]:$((++argi))}")
+      POSITIONALS+=("${words_dequoted[@]:$((++argi)):$((cword - argi))}")
+      NUM_POSITIONALS=${#POSITIONALS[@]}
+      POSITIONALS+=("${words_dequoted[cword]}")
       return;;
     -?*) # ignore '-'
 %LONG_OPTION_CASES%
@@ -40,6 +43,8 @@ for ((argi=1; argi < cword; ++argi)); do
   esac
 done
 
+NUM_POSITIONALS=${#POSITIONALS[@]}
+
 for ((; argi <= cword; ++argi)); do
   case "${words_dequoted[argi]}" in
     -?*);;
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index 418e0af..d8766f2 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -17,6 +17,7 @@ from .preprocessor import preprocess
 _PARSER_CODE = '''\
 #ifdef positionals
 POSITIONALS=()
+NUM_POSITIONALS=0
 #endif
 END_OF_OPTIONS=0
 
@@ -36,7 +37,9 @@ for ((argi=1; argi < cword; ++argi)); do
     --)
       END_OF_OPTIONS=1
 #ifdef positionals
-      POSITIONALS+=("${words_dequoted[@]:$((++argi))}")
+      POSITIONALS+=("${words_dequoted[@]:$((++argi)):$((cword - argi))}")
+      NUM_POSITIONALS=${#POSITIONALS[@]}
+      POSITIONALS+=("${words_dequoted[cword]}")
 #endif
       return;;
 #ifdef long_options
@@ -110,6 +113,8 @@ for ((argi=1; argi < cword; ++argi)); do
 done
 #ifdef positionals
 
+NUM_POSITIONALS=${#POSITIONALS[@]}
+
 for ((; argi <= cword; ++argi)); do
   case "${words_dequoted[argi]}" in
     -?*);;
diff --git a/crazy_complete/bash_when.py b/crazy_complete/bash_when.py
index 12fc3ae..8dadef1 100644
--- a/crazy_complete/bash_when.py
+++ b/crazy_complete/bash_when.py
@@ -91,7 +91,7 @@ class ConditionGenerator:
         return f'(( {" + ".join(conditions)} ))'
 
     def _gen_positional_count(self, obj):
-        return f'(( ${{#POSITIONALS[@]}} {obj.operator} {obj.number} ))'
+        return f'(( NUM_POSITIONALS {obj.operator} {obj.number} ))'
 
     def _gen_positional_contains(self, obj):
         func = self.ctxt.helpers.use_function('array_contains')
-- 
2.43.0


From a1b7c18b7257f69db0be71d4d1c1114f46c2ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:32 +0000
Subject: [PATCH 11/72] fix: don't make hidden options repeatable by
 configuration

---
 crazy_complete/generation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/generation.py b/crazy_complete/generation.py
index 7adeca7..6661929 100644
--- a/crazy_complete/generation.py
+++ b/crazy_complete/generation.py
@@ -70,9 +70,6 @@ def _apply_config(commandline, config):
         commandline.inherit_options = config.inherit_options
 
     for option in commandline.options:
-        if option.repeatable == cli.INHERIT:
-            option.repeatable = config.repeatable_options
-
         if option.long_opt_arg_sep == cli.INHERIT:
             option.long_opt_arg_sep = config.long_opt_arg_sep
 
@@ -85,7 +82,11 @@ def _apply_config(commandline, config):
         if config.disabled_groups:
             option.groups = []
 
-        if config.disabled_repeatable:
+        # Hidden options cannot be repeatable
+        if option.repeatable == cli.INHERIT:
+            option.repeatable = config.repeatable_options and not option.hidden
+
+        if config.disabled_repeatable and not option.hidden:
             option.repeatable = True
 
         if config.disabled_when:
-- 
2.43.0


From b22db1f2155c67cf0a7cccac684cc38b87e3eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 12/72] fix: complete joined arguments of commands with only
 optional arguments in Bash

---
 crazy_complete/bash_option_completion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 074377d..a0b901c 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -129,7 +129,9 @@ class MasterCompletionFunctionNoWhen(MasterCompletionFunctionBase):
 
         if optional_arg:
             self.optionals = True
-            r =  '(( ! ret )) && return 0\n'
+            r = ''
+            if required_arg:
+                r += '(( ! ret )) && return 0\n'
             r += '[[ "$mode" == WITH_OPTIONAL ]] || return 1\n'
             r += 'ret=0'
             self.code.append(r)
-- 
2.43.0


From 98d0a7d878c1211447e9a2794e48b1440ec011f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 13/72] fix: offer options before the subcommand's positional
 in Fish

---
 crazy_complete/fish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish.py b/crazy_complete/fish.py
index 76e623d..df95275 100644
--- a/crazy_complete/fish.py
+++ b/crazy_complete/fish.py
@@ -220,7 +220,7 @@ class FishCompletionGenerator:
         # ensures that we're in the right (sub)command.
         if not self.commandline.inherit_options and self.subcommands:
             positional = self.subcommands.get_positional_num()
-            definition.conditions.add(PositionalNum('==', positional - 1))
+            definition.conditions.add(PositionalNum('<', positional))
 
         definition.conditions.extend(_get_positional_contains(option))
         definition.conditions.add_when(option.when_parsed)
-- 
2.43.0


From 22e34c889b56e68f15f3107db4e13ee0a5bb9780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 14/72] fix: recognise options of the top-level command after
 positionals in Fish

---
 crazy_complete/fish_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 4e75249..7672bd8 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -66,6 +66,7 @@ set -l last_arg_is_option_argument false
 
 #ifdef subcommands
 function %PREFIX%_match_positionals -S
+  test -n "$argv[1]" || return 0
   set -l patterns (string split -- '>' "$argv[1]")
   set -l i (count $patterns)
 
-- 
2.43.0


From a4106609f7140fd5693af546dd2d196c4b8b85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 15/72] fix: parse only the words before the cursor in Zsh

---
 crazy_complete/zsh.py         | 2 +-
 crazy_complete/zsh_helpers.py | 2 +-
 crazy_complete/zsh_when.py    | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index b8b0dff..5087a3b 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -120,7 +120,7 @@ class ZshCompletionFunction:
         if self.query.used:
             r  = 'local opts=%s\n' % shell.quote(utils.get_query_option_strings(self.commandline))
             r += "local HAVING_OPTIONS=() OPTION_VALUES=() POSITIONALS=() INCOMPLETE_OPTION=''\n"
-            r += '%s init "$opts" "${words[@]}"' % self.query.use()
+            r += '%s init "$opts" "${(@)words[1,CURRENT-1]}"' % self.query.use()
             self.code['0-init'] = r
 
     def _generate_option_capture(self):
diff --git a/crazy_complete/zsh_helpers.py b/crazy_complete/zsh_helpers.py
index 884d2f5..29af76f 100644
--- a/crazy_complete/zsh_helpers.py
+++ b/crazy_complete/zsh_helpers.py
@@ -234,7 +234,7 @@ for ((; argi <= ${#args[@]}; ++argi)); do
 
   case "$arg" in
     --)
-      POSITIONALS+=("${@:$((argi + 1))}")
+      POSITIONALS+=("${args[@]:$argi}")
       break;;
     --*=*)
       HAVING_OPTIONS+=("${arg%%=*}")
diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index 60f7236..2a9e3ec 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -83,11 +83,13 @@ def _generate_has_option(_ctxt, query, obj):
     return shell.join_quoted(args)
 
 
-def _generate_positional_count(_ctxt, _query, obj):
+def _generate_positional_count(_ctxt, query, obj):
+    query.use() # sets up POSITIONALS
     return f'(( ${{#POSITIONALS[@]}} {obj.operator} {obj.number} ))'
 
 
-def _generate_positional_contains(ctxt, _query, obj):
+def _generate_positional_contains(ctxt, query, obj):
+    query.use() # sets up POSITIONALS
     func = ctxt.helpers.use_function('array_contains')
     values = shell.join_quoted(obj.values)
 
-- 
2.43.0


From 5f74725443c6911a8841db1541c5e9dc57414986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 16/72] fix: skip options of parent commands in Zsh

---
 crazy_complete/zsh.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index 5087a3b..1e5c065 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -81,6 +81,21 @@ class ZshCompletionFunction:
 
         return Arg(option, option.when, option_spec)
 
+    def _foreign_option(self, option, option_strings):
+        # Options of parent commands that are not available in this command
+        # still have to be known to be able to skip them and their arguments.
+        option_spec = zsh_utils.make_option_spec(
+            option_strings,
+            complete = option.complete,
+            optional_arg = option.optional_arg,
+            repeatable = True,
+            hidden = True,
+            action = ' ' if option.complete else None,
+            long_opt_arg_sep = option.long_opt_arg_sep
+        )
+
+        return Arg(option, None, option_spec)
+
     def _complete_subcommands(self, positional):
         choices = positional.get_choices()
         self.command_counter += 1
@@ -164,14 +179,24 @@ class ZshCompletionFunction:
     def _generate_option_parsing(self):
         args = []
 
-        if self.commandline.inherit_options:
-            options = self.commandline.get_options(with_parent_options=True)
-        else:
-            options = self.commandline.get_options()
+        own_options = []
+        foreign_options = []
 
-        for option in options:
+        for cmdline in self.commandline.get_parents(include_self=True):
+            if cmdline is self.commandline or cmdline.inherit_options:
+                own_options.extend(cmdline.get_options())
+            else:
+                foreign_options.extend(cmdline.get_options())
+
+        for option in own_options:
             args.append(self._complete_option(option))
 
+        own_strings = [s for o in own_options for s in o.option_strings]
+        for option in foreign_options:
+            strings = [s for s in option.option_strings if s not in own_strings]
+            if strings:
+                args.append(self._foreign_option(option, strings))
+
         for cmdline in self.commandline.get_parents():
             for option in cmdline.get_positionals():
                 args.append(self._complete_positional(option))
-- 
2.43.0


From bfc603bb433fa3f344a2234b26b154fd883ea7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:56 +0000
Subject: [PATCH 17/72] fix: don't complete an option's argument as positional
 in Bash

---
 crazy_complete/bash_positionals_completion.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crazy_complete/bash_positionals_completion.py b/crazy_complete/bash_positionals_completion.py
index 2808689..de2f7bc 100644
--- a/crazy_complete/bash_positionals_completion.py
+++ b/crazy_complete/bash_positionals_completion.py
@@ -90,4 +90,10 @@ def generate(generator):
     if generator.subcommands:
         code += [_generate_subcommand_positional(generator)]
 
+    code = [c for c in code if c]
+    if code:
+        # The word under the cursor is not a positional if it's the
+        # argument of an option (of this command or a parent command).
+        code.insert(0, '(( ${#POSITIONALS[@]} > NUM_POSITIONALS )) || return 1')
+
     return '\n\n'.join(c for c in code if c)
-- 
2.43.0


From dba8b1881776add77c06ae5e3cb1773a3bb9182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:56 +0000
Subject: [PATCH 18/72] fix: complete inherited options stacked behind flags of
 subcommands in Bash

---
 crazy_complete/bash_option_completion.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index a0b901c..871d407 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -222,11 +222,27 @@ class _Info:
             elif option.complete is None:
                 self.short_no_args += short_opts
 
+        if self.commandline.inherit_options:
+            self._add_flags_of_subcommands()
+
         if self.short_no_args:
             self.short_no_args_pattern = '*([%s])' % self.short_no_args
         else:
             self.short_no_args_pattern = ''
 
+    def _add_flags_of_subcommands(self):
+        # Our options can be stacked behind flags of the subcommands.
+        for commandline in self.commandline.get_all_commandlines():
+            for option in commandline.get_options():
+                if option.complete is not None:
+                    continue
+
+                for char in [o.lstrip('-') for o in option.get_short_option_strings()]:
+                    if char not in (self.short_no_args +
+                                    self.short_required_args +
+                                    self.short_optional_args):
+                        self.short_no_args += char
+
     def _collect_options_info(self, options):
         for option in options:
             if option.get_long_option_strings():
-- 
2.43.0


From c86031aa55cb3b063a35dde270fde818cd8cf326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 19/72] fix: accept the operator != in conditions

---
 crazy_complete/shell_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index f09e2d5..81a44ac 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -52,6 +52,10 @@ class Lexer(StringStream):
         if c is None:
             return None
 
+        if c == '!' and self.peek(1) == '=':
+            self.advance(2)
+            return Literal('!=')
+
         if c in ('!', '(', ')'):
             self.advance(1)
             return c
-- 
2.43.0


From c7c660ffec7dcda09c6ebf04bee689c03c2fb806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 20/72] fix: don't generate double negations in Zsh

---
 crazy_complete/zsh_when.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index 2a9e3ec..55aaea8 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -28,6 +28,9 @@ def _generate(ctxt, query, tokens):
         elif isinstance(obj, when.PositionalContains):
             r.append(_generate_positional_contains(ctxt, query, obj))
 
+        elif obj == '!' and r and r[-1] == '!':
+            r.pop() # Zsh doesn't support `! !`
+
         elif obj in ('&&', '||', '!'):
             r.append(obj)
 
-- 
2.43.0


From 01636fba8a48a5ecf3758e34950276d5c57440f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 21/72] fix: skip options whose condition is false in Zsh

---
 crazy_complete/zsh.py | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index 1e5c065..1f05485 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -18,7 +18,7 @@ from .output import Output
 from .str_utils import indent
 
 
-Arg = namedtuple('Arg', ('option', 'when', 'option_spec'))
+Arg = namedtuple('Arg', ('option', 'when', 'option_spec', 'disabled_spec'))
 
 
 class ZshQuery:
@@ -79,7 +79,31 @@ class ZshCompletionFunction:
             long_opt_arg_sep = option.long_opt_arg_sep
         )
 
-        return Arg(option, option.when, option_spec)
+        disabled_spec = None
+        if option.when is not None:
+            disabled_spec = self._disabled_option_spec(option)
+
+        return Arg(option, option.when, option_spec, disabled_spec)
+
+    def _disabled_option_spec(self, option):
+        # An option whose condition is false still has to be known to be able
+        # to skip it and its argument.
+        for cmdline in self.commandline.get_parents(include_self=True):
+            for other in cmdline.get_options():
+                if other is not option and not set(other.option_strings).isdisjoint(option.option_strings):
+                    return None
+
+        return zsh_utils.make_option_spec(
+            option.option_strings,
+            conflicting_options = option.get_conflicting_option_strings(),
+            complete = option.complete,
+            optional_arg = option.optional_arg,
+            repeatable = option.repeatable,
+            hidden = True,
+            final = option.final,
+            action = ' ' if option.complete else None,
+            long_opt_arg_sep = option.long_opt_arg_sep
+        )
 
     def _foreign_option(self, option, option_strings):
         # Options of parent commands that are not available in this command
@@ -94,7 +118,7 @@ class ZshCompletionFunction:
             long_opt_arg_sep = option.long_opt_arg_sep
         )
 
-        return Arg(option, None, option_spec)
+        return Arg(option, None, option_spec, None)
 
     def _complete_subcommands(self, positional):
         choices = positional.get_choices()
@@ -107,7 +131,7 @@ class ZshCompletionFunction:
             self._complete(positional, 'choices', choices).get_action_string()
         )
 
-        return Arg(positional, None, spec)
+        return Arg(positional, None, spec, None)
 
     def _complete_positional(self, positional):
         spec = zsh_utils.make_positional_spec(
@@ -117,7 +141,7 @@ class ZshCompletionFunction:
             self._complete(positional, *positional.complete).get_action_string()
         )
 
-        return Arg(positional, positional.when, spec)
+        return Arg(positional, positional.when, spec, None)
 
     def _generate_completion_code(self):
         self.code = OrderedDict()
@@ -211,7 +235,7 @@ class ZshCompletionFunction:
             args.append(self._complete_subcommands(self.subcommands))
 
         if self.commandline.wraps:
-            args.append(Arg(None, None, "'::*'"))
+            args.append(Arg(None, None, "'::*'", None))
 
         if not args:
             return ''
@@ -237,7 +261,10 @@ class ZshCompletionFunction:
         for arg in args_with_when:
             when_cmd = zsh_when.generate_when_conditions(self.ctxt, self.query, arg.when)
             r += '%s &&\\\n' % when_cmd
-            r += '  args+=(%s)\n' % arg.option_spec
+            r += '  args+=(%s)' % arg.option_spec
+            if arg.disabled_spec:
+                r += ' ||\\\n  args+=(%s)' % arg.disabled_spec
+            r += '\n'
 
         if self.ctxt.config.option_stacking:
             r += '_arguments -S -s -w "${args[@]}"'
-- 
2.43.0


From 69c3eafa6d30d3c7278d4e68f81c80cf44dae230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 22/72] fix: recognise all option strings of an option in
 conditions in Fish and Zsh

---
 crazy_complete/generation.py | 24 ++++++++++++++++++++++--
 crazy_complete/zsh.py        |  4 ++--
 crazy_complete/zsh_when.py   |  3 +--
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/generation.py b/crazy_complete/generation.py
index 6661929..b195223 100644
--- a/crazy_complete/generation.py
+++ b/crazy_complete/generation.py
@@ -97,11 +97,31 @@ def _apply_config(commandline, config):
             positional.when = None
 
 
+def _expand_option_strings(commandline, tokens):
+    # An option can be given by any of its option strings.
+    for obj in tokens:
+        if isinstance(obj, (when.OptionIs, when.OptionMatch, when.HasOption)):
+            option_strings = list(obj.options)
+
+            for option in commandline.options:
+                if not set(option.option_strings).isdisjoint(obj.options):
+                    option_strings.extend(
+                        o for o in option.option_strings if o not in option_strings)
+
+            obj.options = option_strings
+
+    return tokens
+
+
+def _parse_when(commandline, when_):
+    return _expand_option_strings(commandline, when.parse_when(when_))
+
+
 def _add_parsed_when(commandline):
     for option in commandline.options:
         if option.when:
             try:
-                option.when_parsed = when.parse_when(option.when)
+                option.when_parsed = _parse_when(commandline, option.when)
             except CrazyError as e:
                 raise CrazyError('%s: %s: when: %s' % (
                     commandline.get_command_path(),
@@ -113,7 +133,7 @@ def _add_parsed_when(commandline):
     for positional in commandline.positionals:
         if positional.when:
             try:
-                positional.when_parsed = when.parse_when(positional.when)
+                positional.when_parsed = _parse_when(commandline, positional.when)
             except CrazyError as e:
                 raise CrazyError('%s: %s: %s: when: %s' % (
                     commandline.get_command_path(),
diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index 1f05485..728ff5d 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -83,7 +83,7 @@ class ZshCompletionFunction:
         if option.when is not None:
             disabled_spec = self._disabled_option_spec(option)
 
-        return Arg(option, option.when, option_spec, disabled_spec)
+        return Arg(option, option.when_parsed, option_spec, disabled_spec)
 
     def _disabled_option_spec(self, option):
         # An option whose condition is false still has to be known to be able
@@ -141,7 +141,7 @@ class ZshCompletionFunction:
             self._complete(positional, *positional.complete).get_action_string()
         )
 
-        return Arg(positional, positional.when, spec, None)
+        return Arg(positional, positional.when_parsed, spec, None)
 
     def _generate_completion_code(self):
         self.code = OrderedDict()
diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index 55aaea8..6ca2a4e 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -102,8 +102,7 @@ def _generate_positional_contains(ctxt, query, obj):
         return f'{func} "${{POSITIONALS[{obj.number}]}}" {values}'
 
 
-def generate_when_conditions(ctxt, query, when_):
+def generate_when_conditions(ctxt, query, tokens):
     '''Generate when condition code.'''
 
-    tokens = when.parse_when(when_)
     return _generate(ctxt, query, tokens)
-- 
2.43.0


From ba48b44f1bf80933a580497f9e051151c39b445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 23/72] fix: offer no inherited options after a final option of
 a subcommand in Bash and Fish

---
 crazy_complete/bash_option_strings_completion.py |  2 ++
 crazy_complete/fish.py                           | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/crazy_complete/bash_option_strings_completion.py b/crazy_complete/bash_option_strings_completion.py
index 20fae2f..6018985 100644
--- a/crazy_complete/bash_option_strings_completion.py
+++ b/crazy_complete/bash_option_strings_completion.py
@@ -70,6 +70,8 @@ def _generate_final_check_with_options(final_conditions, options):
 
     r  = 'if (( %s )); then\n' % ' && '.join(final_conditions)
     r += '%s\n' % indent(option_strings_completion, 2)
+    r += 'else\n'
+    r += '  return 0\n' # Don't complete the options of parent commands
     r += 'fi'
     return r
 
diff --git a/crazy_complete/fish.py b/crazy_complete/fish.py
index df95275..7672053 100644
--- a/crazy_complete/fish.py
+++ b/crazy_complete/fish.py
@@ -203,6 +203,9 @@ class FishCompletionGenerator:
         final_options = self.commandline.get_final_option_strings()
         not_has_options.extend(final_options)
 
+        if self.commandline.inherit_options:
+            not_has_options.extend(self._get_final_options_of_subcommands())
+
         conflicting_options = option.get_conflicting_option_strings()
         not_has_options.extend(conflicting_options)
 
@@ -227,6 +230,16 @@ class FishCompletionGenerator:
 
         return definition
 
+    def _get_final_options_of_subcommands(self):
+        final = []
+        not_final = []
+
+        for commandline in self.commandline.get_all_commandlines():
+            for option in commandline.get_options():
+                (final if option.final else not_final).extend(option.option_strings)
+
+        return [o for o in final if o not in not_final]
+
     def _complete_positional(self, positional):
         context = self.ctxt.get_option_context(self.commandline, positional)
 
-- 
2.43.0


From 7812274b6562249f864163d5a6a4080c5300b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 24/72] fix: accept a repeatable key in excludes of
 key_value_list

A key of the form `*key` was recorded with its leading asterisk, so that
another entry could not list it in its excludes ("No such key"), and a
duplicate of such a key went unnoticed.
---
 crazy_complete/scheme_validator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index ca9a346..dbd8923 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -440,12 +440,15 @@ def _check_key_value_list(ctxt, arguments):
         _check_non_empty_string(key, f'{index}: key')
         _check_no_spaces(key, f'{index}: key')
 
-        if key.value in defined_keys:
+        # A leading `*` marks a key as repeatable
+        key_name = key.value[1:] if key.value.startswith('*') else key.value
+
+        if key_name in defined_keys:
             cause = f'{index}: {key.value}'
             msg = '%s: Duplicate key' % cause
             raise _error(msg, key)
 
-        defined_keys.add(key.value)
+        defined_keys.add(key_name)
 
         if complete.value is not None:
             _check_complete(ctxt, complete)
-- 
2.43.0


From e727801bd5d5b228cc8675c5b4fb575c906d0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:24 +0000
Subject: [PATCH 25/72] fix: don't parse positionals as stacked options in Fish

The word at the cursor was searched for short options with an argument even
if it did not begin with a hyphen, so that the completers of lists and
key-value pairs saw only the part after such a letter and suggested nothing.
---
 crazy_complete/fish_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 7672bd8..982c5af 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -225,6 +225,7 @@ set -l cmdline_last_arg (commandline -ct | string unescape)
 set -g __QUERY_CACHE_CURRENT_ARG $cmdline_last_arg
 
 $last_arg_is_option_argument && return
+string match -q -- '-*' $cmdline_last_arg || return
 
 set -l split (string split -m1 -- '=' $cmdline_last_arg)
 # `string split` returns 0 if it did split the string
-- 
2.43.0


From ac37a0d17049bf64d43656221944e04991526496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 26/72] fix: strip the asterisk of repeatable keys in
 key_value_list_exec in Zsh

The key was passed to the command with its leading asterisk and without
quotes, so that no values were suggested for a repeatable key.
---
 crazy_complete/zsh_helpers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/zsh_helpers.py b/crazy_complete/zsh_helpers.py
index 29af76f..b1fe67b 100644
--- a/crazy_complete/zsh_helpers.py
+++ b/crazy_complete/zsh_helpers.py
@@ -401,7 +401,7 @@ _describe '' describe
 _KEY_VALUE_PAIR_EXEC = ShellFunction('key_value_pair_exec', r'''
 local sep="$1"
 local func="$2"
-local key='' desc=''
+local key='' desc='' command=''
 local -a args=()
 
 while IFS=$'\t' read -r key desc; do
@@ -412,7 +412,8 @@ while IFS=$'\t' read -r key desc; do
 
   if [[ "${key[-1]}" == '=' ]]; then
     key="${key:0:-1}"
-    args+=("${key}[$desc]:::{exec '$func $key'}")
+    command="$func ${(q)key}"
+    args+=("${key}[$desc]:::{exec ${(q)command}}")
   else
     args+=("${key}[$desc]")
   fi
@@ -425,7 +426,7 @@ _KEY_VALUE_LIST_EXEC = ShellFunction('key_value_list_exec', r'''
 local sep1="$1"
 local sep2="$2"
 local func="$3"
-local key='' desc='' excludes=''
+local key='' desc='' excludes='' command=''
 local -a args=()
 
 while IFS=$'\t' read -r key desc excludes; do
@@ -438,10 +439,12 @@ while IFS=$'\t' read -r key desc excludes; do
 
   if [[ "${key: -1:1}" == '=' ]]; then
     key="${key:0:-1}"
-    args+=("${excludes}${key}[$desc]: :{exec '$func $key'}")
+    command="$func ${(q)key#\*}"
+    args+=("${excludes}${key}[$desc]: :{exec ${(q)command}}")
   elif [[ "${key: -2:2}" == '=?' ]]; then
     key="${key:0:-2}"
-    args+=("${excludes}${key}[$desc]:: :{exec '$func $key'}")
+    command="$func ${(q)key#\*}"
+    args+=("${excludes}${key}[$desc]:: :{exec ${(q)command}}")
   else
     args+=("${excludes}${key}[$desc]")
   fi
-- 
2.43.0


From 6f924b68c5c90fb45f2751255903831ddeb3632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 27/72] fix: Bash: complete an empty word in front of other
 words

Bash leaves out the empty word at the cursor of COMP_WORDS if an option
word follows, so no positionals and subcommands were offered there.
---
 crazy_complete/bash.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index d813354..4f1e18f 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -141,6 +141,8 @@ class BashCompletionGenerator:
             # The root parser makes those variables local and sets up the completion.
             r  = 'local cur prev words cword split words_dequoted\n'
             r += '%s -n =: || return\n' % bash_versions.init_completion(self.ctxt)
+            # Bash leaves out an empty word at the cursor if a word follows
+            r += 'words[cword]="$cur"\n'
             r += self.ctxt.helpers.use_function('dequote_words')
             code['init_completion'] = r
 
-- 
2.43.0


From a62570c2f0c94e28cad686390562a43a31bb6ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 28/72] fix: Bash: don't generate an empty branch if all
 options are hidden

A command without visible options, combined with final options, produced
'if (( ... )); then else', a syntax error.
---
 crazy_complete/bash_option_strings_completion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/bash_option_strings_completion.py b/crazy_complete/bash_option_strings_completion.py
index 6018985..0ce7436 100644
--- a/crazy_complete/bash_option_strings_completion.py
+++ b/crazy_complete/bash_option_strings_completion.py
@@ -69,7 +69,7 @@ def _generate_final_check_with_options(final_conditions, options):
         return option_strings_completion
 
     r  = 'if (( %s )); then\n' % ' && '.join(final_conditions)
-    r += '%s\n' % indent(option_strings_completion, 2)
+    r += '%s\n' % indent(option_strings_completion or ':', 2)
     r += 'else\n'
     r += '  return 0\n' # Don't complete the options of parent commands
     r += 'fi'
-- 
2.43.0


From b73ce75114ce658eb7b606df508cc926ae8131d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 29/72] fix: Bash: leave joined arguments of inherited options
 to the parent command

The loop over the stacked letters skipped the inherited option and took a
letter of its argument for an option of the subcommand.
---
 crazy_complete/bash_option_completion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 871d407..b935e1d 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -211,6 +211,8 @@ class _Info:
         self.short_no_args = ''
         self.short_required_args = ''
         self.short_optional_args = ''
+        self.own_short_args = ''.join(
+            o.lstrip('-') for option in options for o in option.get_short_option_strings())
 
         for option in all_options:
             short_opts = ''.join(o.lstrip('-') for o in option.get_short_option_strings())
@@ -288,8 +290,7 @@ def _get_prev_completion(info):
 
 def _get_cur_completion(info):
     short_no_args_pattern = info.short_no_args_pattern
-    short_required_args = info.short_required_args
-    short_optional_args = info.short_optional_args
+    own_short_args = info.own_short_args
 
     r = 'case "$cur" in\n'
 
@@ -309,7 +310,8 @@ def _get_cur_completion(info):
         r += '    __complete_option "${cur%%=*}" "${cur#*=}" WITH_OPTIONAL && return 0;&\n'
 
     if info.short_required or info.short_optional:
-        r += '  -%s[%s%s]*)\n' % (short_no_args_pattern, short_required_args, short_optional_args)
+        # Joined arguments of inherited options are completed by our parents
+        r += '  -%s[%s]*)\n' % (short_no_args_pattern, own_short_args)
         r += '    local i\n'
         r += '    for ((i=2; i <= ${#cur}; ++i)); do\n'
         r += '      local pre="${cur:0:$i}" value="${cur:$i}"\n'
-- 
2.43.0


From 2f0ccfd7f991f9d4f5ee264aed79140118436737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 30/72] fix: Bash: count positionals for conditions even if
 none are defined

The parser left out the positionals if the definition has none, so
positional_count and positional_contains always saw an empty list.
---
 crazy_complete/bash_parser_v2.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index d8766f2..addd19f 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -7,6 +7,7 @@ from collections import namedtuple
 
 from . import utils
 from . import shell
+from . import when
 from . import bash_patterns
 from .str_utils import indent
 from .bash_parser_subcommand_code import (
@@ -173,6 +174,17 @@ def _make_option_switch_code(option_cases):
     return r
 
 
+def _has_positional_conditions(commandline):
+    for cmdline in commandline.get_all_commandlines():
+        for option in cmdline.options:
+            if option.when:
+                for obj in when.parse_when(option.when):
+                    if isinstance(obj, (when.PositionalCount, when.PositionalContains)):
+                        return True
+
+    return False
+
+
 def generate(commandline, variable_manager):
     '''Generate code for parsing the command line.'''
 
@@ -189,7 +201,7 @@ def generate(commandline, variable_manager):
         defines.append('old_options')
     if types.short_optional:
         defines.append('short_optionals')
-    if types.positionals:
+    if types.positionals or _has_positional_conditions(commandline):
         defines.append('positionals')
 
     s = preprocess(_PARSER_CODE, defines)
-- 
2.43.0


From fbe4216d07585e50bbe4fcf35dcc643fb8960a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 31/72] fix: subcommand functions clash with those of other
 programs

The functions for the subcommand 'compose' of 'docker' and for the program
'docker-compose' had the same name, so in Bash and Zsh loading one completion
script broke the other.
---
 crazy_complete/helpers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index 71d3d19..31ed9bd 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -238,13 +238,19 @@ class GeneralHelpers:
 
         Example:
             For a program with the name 'my_program' and a subcommand with the name 'subcommand',
-            the generated function name is '_my_program_subcommand'.
+            the generated function name is '_my_program__cmd_subcommand'.
+
+        The double underscore keeps the function of a subcommand apart from the
+        function of another program whose name is 'my_program_subcommand'.
         '''
         assert isinstance(commandline, cli.CommandLine)
 
         commandlines = commandline.get_parents(include_self=True)
         prognames = [cmdline.prog for cmdline in commandlines]
-        prognames[0] = self.function_prefix
-        identifier = shell.make_identifier('_'.join(prognames))
+        identifier = shell.make_identifier(self.function_prefix)
+
+        if len(prognames) > 1:
+            subcommand = shell.make_identifier('_'.join(prognames[1:])).lstrip('_')
+            identifier = f'{identifier}__cmd_{subcommand}'
 
         return f'{identifier}{suffix}'
-- 
2.43.0


From a83670c6b34d77a7c06cd85bfd6b18842c0a9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 32/72] fix: subcommands such as 'a-b' and 'a_b' share one
 completion function

---
 crazy_complete/helpers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index 31ed9bd..780f42b 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -98,6 +98,9 @@ class GeneralHelpers:
         self.function_prefix = config.function_prefix.replace('$PROG', prog)
         self.function_class = function_class
 
+        # Completion functions
+        self.completion_funcnames = {}  # funcname:(prog, subcommand, ...)
+
         # Dynamic functions
         self.dynamic_functions_code_to_funcname = {}
 
@@ -253,4 +256,12 @@ class GeneralHelpers:
             subcommand = shell.make_identifier('_'.join(prognames[1:])).lstrip('_')
             identifier = f'{identifier}__cmd_{subcommand}'
 
-        return f'{identifier}{suffix}'
+        # Different subcommands may have the same identifier ('a-b' and 'a_b')
+        path = tuple(prognames)
+        unique = identifier
+        num = 2
+        while self.completion_funcnames.setdefault(unique, path) != path:
+            unique = f'{identifier}_{num}'
+            num += 1
+
+        return f'{unique}{suffix}'
-- 
2.43.0


From 3d6434961e722d1c6c1a12ce56747eaaa718d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:43 +0000
Subject: [PATCH 33/72] fix: Bash: give every option its own valid variable
 name

---
 crazy_complete/bash_utils.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crazy_complete/bash_utils.py b/crazy_complete/bash_utils.py
index 9799b24..2461e6d 100644
--- a/crazy_complete/bash_utils.py
+++ b/crazy_complete/bash_utils.py
@@ -6,21 +6,27 @@
 from . import shell
 
 
-def make_option_variable_name(option, prefix=''):
-    '''Make a variable for an option.'''
+def _get_main_option_string(option):
     long_options = option.get_long_option_strings()
     if long_options:
-        return prefix + shell.make_identifier(long_options[0].lstrip('-'))
+        return long_options[0]
 
     old_options = option.get_old_option_strings()
     if old_options:
-        return prefix + shell.make_identifier(old_options[0].lstrip('-'))
+        return old_options[0]
 
     short_options = option.get_short_option_strings()
     if short_options:
-        return prefix + short_options[0][1]
+        return short_options[0]
+
+    raise AssertionError("_get_main_option_string: Should not be reached")
 
-    raise AssertionError("make_option_variable_name: Should not be reached")
+
+def make_option_variable_name(option, prefix=''):
+    '''Make a variable for an option.'''
+
+    option_string = _get_main_option_string(option)
+    return prefix + shell.make_identifier(option_string.lstrip('-'))
 
 
 class VariableManager:
@@ -28,14 +34,21 @@ class VariableManager:
 
     def __init__(self, prefix):
         self.prefix = prefix
-        self.variables = set()
+        self.variables = {}  # variable:option_string
 
     def make_variable(self, option):
         '''Make a variable for an option.'''
 
-        var = make_option_variable_name(option, self.prefix)
-        self.variables.add(var)
-        return var
+        option_string = _get_main_option_string(option)
+        var = unique = make_option_variable_name(option, self.prefix)
+        num = 2
+
+        # Different options may have the same identifier ('--a-b' and '--a_b')
+        while self.variables.setdefault(unique, option_string) != option_string:
+            unique = f'{var}_{num}'
+            num += 1
+
+        return unique
 
     def capture_variable(self, option):
         '''Return the capture variable of an option, creating it if necessary.'''
-- 
2.43.0


From 845e6a07256b8609c5f725382cde32fd03c7c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:28 +0000
Subject: [PATCH 34/72] fix: Bash: match option strings literally in patterns

---
 crazy_complete/bash.py                   |  2 +-
 crazy_complete/bash_option_completion.py | 12 +++++-----
 crazy_complete/bash_patterns.py          | 28 +++++++++++++++++++-----
 crazy_complete/bash_utils.py             | 10 ++++-----
 4 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index 4f1e18f..b8164b6 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -76,7 +76,7 @@ class BashCompletionGenerator:
         r += '  case "${POSITIONALS[%i]}" in\n' % (positional_num - 1)
         for subcommand in self.subcommands.subcommands:
             cmds = utils.get_all_command_variations(subcommand)
-            pattern = bash_patterns.make_pattern([shell.quote(s) for s in cmds])
+            pattern = bash_patterns.make_pattern(cmds)
             funcname = self.ctxt.helpers.make_completion_funcname(subcommand)
             if utils.is_worth_a_function(subcommand):
                 if self.commandline.inherit_options:
diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index b935e1d..ef72e27 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -228,7 +228,7 @@ class _Info:
             self._add_flags_of_subcommands()
 
         if self.short_no_args:
-            self.short_no_args_pattern = '*([%s])' % self.short_no_args
+            self.short_no_args_pattern = '*(%s)' % bash_patterns.make_bracket(self.short_no_args)
         else:
             self.short_no_args_pattern = ''
 
@@ -267,6 +267,8 @@ class _Info:
 
 
 def _get_prev_completion(info):
+    short_required_args = bash_patterns.make_bracket(info.short_required_args)
+
     r = 'case "$prev" in\n'
 
     if info.long_required:
@@ -276,12 +278,12 @@ def _get_prev_completion(info):
 
     if info.old_required and info.short_required:
         r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;&\n'
-        r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
+        r += '  -%s%s)\n' % (info.short_no_args_pattern, short_required_args)
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.old_required:
         r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.short_required:
-        r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
+        r += '  -%s%s)\n' % (info.short_no_args_pattern, short_required_args)
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
 
     r += 'esac'
@@ -290,7 +292,7 @@ def _get_prev_completion(info):
 
 def _get_cur_completion(info):
     short_no_args_pattern = info.short_no_args_pattern
-    own_short_args = info.own_short_args
+    own_short_args = bash_patterns.make_bracket(info.own_short_args)
 
     r = 'case "$cur" in\n'
 
@@ -311,7 +313,7 @@ def _get_cur_completion(info):
 
     if info.short_required or info.short_optional:
         # Joined arguments of inherited options are completed by our parents
-        r += '  -%s[%s]*)\n' % (short_no_args_pattern, own_short_args)
+        r += '  -%s%s*)\n' % (short_no_args_pattern, own_short_args)
         r += '    local i\n'
         r += '    for ((i=2; i <= ${#cur}; ++i)); do\n'
         r += '      local pre="${cur:0:$i}" value="${cur:$i}"\n'
diff --git a/crazy_complete/bash_patterns.py b/crazy_complete/bash_patterns.py
index 2cd3dcf..06cd5bb 100644
--- a/crazy_complete/bash_patterns.py
+++ b/crazy_complete/bash_patterns.py
@@ -3,6 +3,7 @@
 
 '''Module for creating Bash globs.'''
 
+import re
 from collections import defaultdict
 
 from .algo import numbers_are_contiguous
@@ -30,12 +31,10 @@ def _build_pattern(parts):
     if len(parts) == 1:
         return parts[0]
 
-    try:
+    if all(re.fullmatch('[0-9]', part) for part in parts):
         ints = sorted(map(int, parts))
         if numbers_are_contiguous(ints):
             return f'[{ints[0]}-{ints[-1]}]'
-    except ValueError:
-        pass
 
     return "@(" + "|".join(sorted(parts)) + ")"
 
@@ -68,7 +67,7 @@ def compact_glob_trie(strings):
     '''
     strings = sorted(set(strings))
     if len(strings) == 1:
-        return strings[0]
+        return ''.join(strings[0])
 
     # Build Trie
     root = TrieNode()
@@ -79,10 +78,27 @@ def compact_glob_trie(strings):
     return trie_to_pattern(root)
 
 
+def escape(string):
+    '''Escape the characters of `string` that are special to the shell.
+
+    Returns a list with one element per character.
+    '''
+
+    return [re.sub('[^a-zA-Z0-9_@%+=:,./-]', r'\\\g<0>', char) for char in string]
+
+
+def make_bracket(chars):
+    '''Make a glob pattern that matches one of the characters in `chars`.'''
+
+    return '[%s]' % ''.join(escape(chars))
+
+
 def make_pattern(strings):
-    '''Make a glob pattern that matches `strings`.'''
+    '''Make a glob pattern that literally matches `strings`.'''
+
+    strings = [tuple(escape(string)) for string in strings]
 
-    candidate0 = '|'.join(strings)
+    candidate0 = '|'.join(''.join(string) for string in strings)
     candidate1 = compact_glob_trie(strings)
 
     return candidate0 if len(candidate0) < len(candidate1) else candidate1
diff --git a/crazy_complete/bash_utils.py b/crazy_complete/bash_utils.py
index 2461e6d..8f2c08c 100644
--- a/crazy_complete/bash_utils.py
+++ b/crazy_complete/bash_utils.py
@@ -70,28 +70,28 @@ class CasePatterns:
     def for_long_without_arg(option_strings):
         '''Return a case pattern for long options without arguments.'''
 
-        return '|'.join(option_strings)
+        return shell.join_quoted(option_strings, '|')
 
     @staticmethod
     def for_long_with_arg(option_strings):
         '''Return a case pattern for long options with arguments.'''
 
-        return '|'.join(f'{o}=*' for o in option_strings)
+        return '|'.join(f'{shell.quote(o)}=*' for o in option_strings)
 
     @staticmethod
     def for_short(option_strings):
         '''Return a case pattern for short options.'''
 
-        return '|'.join(o[1] for o in option_strings)
+        return shell.join_quoted((o[1] for o in option_strings), '|')
 
     @staticmethod
     def for_old_without_arg(option_strings):
         '''Return a case pattern for old options without arguments.'''
 
         if len(option_strings) <= 2:
-            return '|'.join(option_strings)
+            return shell.join_quoted(option_strings, '|')
 
-        return '-@(%s)' % '|'.join(o.lstrip('-') for o in option_strings)
+        return '-@(%s)' % shell.join_quoted((o.lstrip('-') for o in option_strings), '|')
 
 
 def make_file_extension_pattern(extensions, fuzzy):
-- 
2.43.0


From 7b5a2657c15c831d23ff28bb124ba4c4df9358c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:58 +0000
Subject: [PATCH 35/72] fix: functions of options and positionals clash with
 helpers and other programs

---
 crazy_complete/helpers.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index 780f42b..b2b6957 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -68,24 +68,34 @@ class FishFunction(FunctionBase):
         return r
 
 
+def _encode_special_characters(string):
+    return re.sub('[^a-zA-Z0-9_-]', lambda m: '%x' % ord(m[0]), string)
+
+
 def make_completion_funcname_for_context(ctxt, prefix):
-    '''TODO.'''
+    '''Make a function name for completing an option or a positional.
+
+    Args:
+        ctxt:
+            The context of the option or positional.
 
-    commandlines = ctxt.commandline.get_parents(include_self=True)
-    prognames = [p.prog for p in commandlines]
-    prognames[0] = prefix
+        prefix (str):
+            The name of the completion function of the commandline.
 
-    funcname = shell.make_identifier('_'.join(prognames))
+    Returns:
+        str: The function name. It's not guaranteed to be unique.
+    '''
 
     if isinstance(ctxt.option, cli.Option):
-        return '%s__%s' % (funcname, ctxt.option.option_strings[0])
+        option_string = _encode_special_characters(ctxt.option.option_strings[0])
+        return '%s__%s' % (prefix, option_string)
     if isinstance(ctxt.option, cli.Positional):
         if ctxt.option.metavar:
             identifier = shell.make_identifier(ctxt.option.metavar)
         else:
             identifier = 'arg%d' % ctxt.option.get_positional_num()
 
-        return '%s__%s' % (funcname, identifier)
+        return '%s__%s' % (prefix, identifier)
 
     raise AssertionError('Should not be reached')
 
@@ -130,10 +140,13 @@ class GeneralHelpers:
     def get_dynamic_funcname(self, ctxt):
         '''Return a unique function name for `ctxt`.'''
 
-        funcname = make_completion_funcname_for_context(ctxt, self.function_prefix)
+        prefix = self.make_completion_funcname(ctxt.commandline)
+        funcname = make_completion_funcname_for_context(ctxt, prefix)
+        used = set(self.dynamic_functions_code_to_funcname.values())
+        used.update(map(self.get_real_function_name, self.functions))
         num = 0
         funcname_plus_num = funcname
-        while funcname_plus_num in self.dynamic_functions_code_to_funcname.values():
+        while funcname_plus_num in used:
             funcname_plus_num = '%s%d' % (funcname, num)
             num += 1
         return funcname_plus_num
@@ -250,7 +263,7 @@ class GeneralHelpers:
 
         commandlines = commandline.get_parents(include_self=True)
         prognames = [cmdline.prog for cmdline in commandlines]
-        identifier = shell.make_identifier(self.function_prefix)
+        identifier = shell.make_identifier(_encode_special_characters(self.function_prefix))
 
         if len(prognames) > 1:
             subcommand = shell.make_identifier('_'.join(prognames[1:])).lstrip('_')
-- 
2.43.0


From 197adf63c08c0d100366271b65e1a566742266a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 36/72] fix: Fish: match option strings literally

---
 crazy_complete/fish_helpers.py | 3 ++-
 crazy_complete/fish_prepare.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 982c5af..312c7eb 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -308,10 +308,11 @@ if $with_incomplete
   set -e tokens[1]
   for option in $argv
     if test 2 -eq (string length -- $option)
-      set option (string sub -l 1 -s 2 -- $option)
+      set option (string sub -l 1 -s 2 -- $option | string escape --style=regex)
       string match -rq -- "^-[A-z0-9]*$option\$"   $tokens[-2] && return 0
       string match -rq -- "^-[A-z0-9]*$option.*\$" $tokens[-1] && return 0
     else
+      set option (string escape --style=regex -- $option)
       string match -q -r -- "^$option\$"       $tokens[-2] && return 0
       string match -q -r -- "^$option(=.*)?\$" $tokens[-1] && return 0
       contains -- $tokens[-1] $argv && return 0
diff --git a/crazy_complete/fish_prepare.py b/crazy_complete/fish_prepare.py
index c70de04..c4459bf 100644
--- a/crazy_complete/fish_prepare.py
+++ b/crazy_complete/fish_prepare.py
@@ -64,7 +64,7 @@ def _get_capture_code(commandline, ctxt):
         for option in cmdline.get_options():
             if option.capture is not None:
                 capture_func = ctxt.helpers.use_function('capture_option')
-                opts = ' '.join(option.option_strings)
+                opts = shell.join_quoted(option.option_strings)
                 r.append(f'{capture_func} {option.capture} {opts}')
 
     return '\n'.join(r)
-- 
2.43.0


From bbd05035992d07b93e72a2beb0adc8f24d15d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 37/72] fix: Zsh: escape special characters of option strings

---
 crazy_complete/zsh_utils.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 7d9a273..d155899 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -3,6 +3,8 @@
 
 '''Utility functions for Zsh.'''
 
+import re
+
 from . import algo
 from . import shell
 from . import string_stream
@@ -49,6 +51,12 @@ def escape_colon_in_quoted_string(s):
     return result
 
 
+def escape_option_string(s):
+    '''Escape characters in an option string that are special in an option spec.'''
+
+    return re.sub(r'[\\:=\[]', r'\\\g<0>', s)
+
+
 def make_option_spec(
         option_strings,
         conflicting_options = None,
@@ -100,16 +108,25 @@ def make_option_spec(
 
     # Option strings ==========================================================
     if complete and optional_arg is True:
-        opts = [o+'-' if len(o) == 2 else o+'=-' for o in option_strings]
+        short_suffix, long_suffix = '-', '=-'
     elif complete:
-        if long_opt_arg_sep == 'both':
-            opts = [o+'+' if len(o) == 2 else o+'=' for o in option_strings]
-        elif long_opt_arg_sep == 'equals':
-            opts = [o+'+' if len(o) == 2 else o+'=-' for o in option_strings]
-        elif long_opt_arg_sep == 'space':
-            opts = [o+'+' if len(o) == 2 else o for o in option_strings]
+        short_suffix = '+'
+        long_suffix = {'both': '=', 'equals': '=-', 'space': ''}[long_opt_arg_sep]
     else:
-        opts = option_strings
+        short_suffix, long_suffix = '', ''
+
+    opts = []
+    for o in option_strings:
+        suffix = short_suffix if len(o) == 2 else long_suffix
+        spec = escape_option_string(o)
+
+        # Keep Zsh from taking the last character for the suffix
+        if not suffix and spec[-1] in '+-':
+            spec = f'{spec[:-1]}\\{spec[-1]}'
+
+        opts.append(spec + suffix)
+
+    opts = [shell.quote(o) for o in opts]
 
     if len(opts) == 1:
         result.append(opts[0])
-- 
2.43.0


From c3c717bcfa89b543efffeba281261551cfaa74bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:57 +0000
Subject: [PATCH 38/72] fix: Zsh: don't escape colons in lists of exclusive
 options

---
 crazy_complete/zsh_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index d155899..74f5541 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -90,11 +90,11 @@ def make_option_spec(
     not_options = []
 
     for o in sorted(conflicting_options):
-        not_options.append(escape_colon(o))
+        not_options.append(o)
 
     if not repeatable:
         for o in sorted(option_strings):
-            not_options.append(escape_colon(o))
+            not_options.append(o)
 
     if final:
         not_options = ['- *']
-- 
2.43.0


From 8143773e947eb267a68f852babad6ee23ac9eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:14 +0000
Subject: [PATCH 39/72] fix: Bash: don't leak helper variables into the shell

having_key and i were set as global variables while completing.
---
 crazy_complete/bash_helpers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index eda5ecf..778ff31 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -156,7 +156,7 @@ echo ${#s1}
 ''')
 
 _COMMANDLINE_STRING = ShellFunction('commandline_string', r'''
-local l line break_pos in_quotes
+local i l line break_pos in_quotes
 dequote "$cur" line break_pos in_quotes
 
 local COMP_LINE_OLD="$COMP_LINE"
@@ -339,7 +339,7 @@ if [[ -z "$cur" ]]; then
   return
 fi
 
-local pair key value found_key cur_stripped="$cur"
+local pair key value found_key having_key cur_stripped="$cur"
 local -a tmp having_pairs having_keys remaining_keys
 
 IFS="$sep1" read -r -a having_pairs <<< "$cur"
@@ -450,7 +450,7 @@ local strip_chars=''
 local cur="$cur" break_pos in_quotes
 dequote "$cur" cur break_pos in_quotes
 
-local key="${cur%%"$sep"*}" value="${cur#*"$sep"}" cur_stripped="$cur"
+local i key="${cur%%"$sep"*}" value="${cur#*"$sep"}" cur_stripped="$cur"
 
 COMPREPLY=()
 
@@ -513,7 +513,7 @@ if [[ -z "$cur" ]]; then
   return
 fi
 
-local pair key value found_key cur_stripped="$cur"
+local i pair key value found_key having_key cur_stripped="$cur"
 local -a tmp having_pairs having_keys remaining_keys
 
 IFS="$sep1" read -r -a having_pairs <<< "$cur"
@@ -625,7 +625,7 @@ echo $pos
 ''')
 
 _PREFIX = ShellFunction('prefix', r'''
-local prefix="$1" func="$2"
+local i prefix="$1" func="$2"
 local stripped="$(strip_prefix_keep_quoting "$prefix" "$cur")"
 
 if [[ "$stripped" == "$cur" ]]; then
@@ -648,7 +648,7 @@ fi
 
 _STRIP_PREFIX_KEEP_QUOTING = ShellFunction('strip_prefix_keep_quoting', r'''
 local p="$1" pi=0 plen=${#1}
-local s="$2" si=0 slen=${#2} state=w
+local s="$2" si=0 slen=${#2} state=w pc sc
 
 for (( pi=0; pi < plen; ++pi )); do
   pc=${p:pi:1}
-- 
2.43.0


From fce7d2a96cbb66750d3c761ec7ed8839b99eb6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 40/72] fix: Restore the user's directory state after
 completing files in another directory

Bash changed OLDPWD (and could not return from a removed directory), Fish
created a dirstack and triggered the user's PWD handlers.
---
 crazy_complete/bash_complete.py |  6 ++++--
 crazy_complete/fish_helpers.py  | 12 +++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/bash_complete.py b/crazy_complete/bash_complete.py
index 678e5fd..8580582 100644
--- a/crazy_complete/bash_complete.py
+++ b/crazy_complete/bash_complete.py
@@ -303,7 +303,8 @@ class BashCompleter(shell.ShellCompleter):
         filedir = bash_versions.filedir(ctxt)
 
         if directory:
-            r = 'builtin pushd %s &>/dev/null && {\n' % shell.quote(directory)
+            r = 'local OLDPWD\n'
+            r += '[[ . -ef "$PWD" ]] && builtin pushd %s &>/dev/null && {\n' % shell.quote(directory)
             r += '  %s -d\n' % filedir
             r += '  builtin popd >/dev/null\n'
             r += '}'
@@ -332,7 +333,8 @@ class BashCompleter(shell.ShellCompleter):
             return BashCompletionFunc(ctxt, args)
 
         if directory:
-            r = 'builtin pushd %s &>/dev/null && {\n' % shell.quote(directory)
+            r = 'local OLDPWD\n'
+            r += '[[ . -ef "$PWD" ]] && builtin pushd %s &>/dev/null && {\n' % shell.quote(directory)
             r += '  %s\n' % shell.join_quoted(args)
             r += '  builtin popd >/dev/null\n'
             r += '}'
diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 312c7eb..d7aa01d 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -548,9 +548,15 @@ set -l desc
 set -l files
 
 if set -q _flag_cd[1]
-  pushd $_flag_cd 2>/dev/null || return 1
-  set files (complete -C"'' $comp")
-  popd
+  set -l dir (string trim -r -c / -- $_flag_cd)/
+  test -d $dir || return 1
+
+  if string match -q -r -- '^[/~]' "$comp"
+    set files (complete -C"'' $comp")
+  else
+    set files (complete -C"'' "(string escape --no-quoted -- "$dir$comp"))
+    set files (string sub -s (math (string length -- $dir) + 1) -- $files)
+  end
 else
   set files (complete -C"'' $comp")
 end
-- 
2.43.0


From eb8a3f7e93a8f8908e760faa8b02a8389e5d1731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:43 +0000
Subject: [PATCH 41/72] fix: Zsh: capture option values unchanged

Values were split on newlines, backslashes and the letter n, empty values
were lost, IFS was changed, and words of subcommands were taken for values of
options of the parent commands.
---
 crazy_complete/zsh.py         | 16 +++++++++++-----
 crazy_complete/zsh_helpers.py |  8 ++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index 728ff5d..b4663e0 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -166,16 +166,22 @@ class ZshCompletionFunction:
         local_vars = []
         set_cmds   = []
 
-        for option in self.commandline.options:
+        # Options of parent commands have to be captured again, as the functions
+        # of the parent commands don't know the options of this command.
+        options = []
+        for cmdline in self.commandline.get_parents(include_self=True):
+            options.extend(cmdline.options)
+
+        for option in options:
             if option.capture:
                 local_vars.append(option.capture)
-                set_cmds.append('IFS=$"\\n" %s=($(%s get_option %s))' % (
-                    option.capture,
+                set_cmds.append('%s get_option %s\n%s=("${reply[@]}")' % (
                     self.query.use('get_option'),
-                    shell.join_quoted(option.option_strings)))
+                    shell.join_quoted(option.option_strings),
+                    option.capture))
 
         if local_vars:
-            r  = 'local %s' % ' '.join(f'{s}=()' for s in local_vars)
+            r  = 'local reply=() %s' % ' '.join(f'{s}=()' for s in local_vars)
             for cmd in set_cmds:
                 r += '\n%s' % cmd
 
diff --git a/crazy_complete/zsh_helpers.py b/crazy_complete/zsh_helpers.py
index b1fe67b..d958edb 100644
--- a/crazy_complete/zsh_helpers.py
+++ b/crazy_complete/zsh_helpers.py
@@ -74,6 +74,7 @@ case "$cmd" in
 #ifdef get_option
   get_option)
     local i=0
+    reply=()
 
 #ifdef DEBUG
     if (( $# == 0 )); then
@@ -82,10 +83,9 @@ case "$cmd" in
     fi
 
 #endif
-    for (( i=0; i <= ${#HAVING_OPTIONS[@]}; ++i )); do
-      local option="${HAVING_OPTIONS[$i]}"
-      if array_contains "$option" "$@"; then
-        printf "%s\n" "${OPTION_VALUES[$i]}"
+    for (( i=1; i <= ${#HAVING_OPTIONS[@]}; ++i )); do
+      if array_contains "${HAVING_OPTIONS[$i]}" "$@"; then
+        reply+=("${OPTION_VALUES[$i]}")
       fi
     done
 
-- 
2.43.0


From 3c5f31c1524f4dfd9a814a14e1b22b949fe60fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 42/72] fix: Bash: skip empty keys printed by
 key_value_list_exec commands

---
 crazy_complete/bash_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index 778ff31..e6a62e4 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -496,6 +496,8 @@ while IFS=$'\t' read -r key desc exclude; do
     non_repeatable_exclude=" $key"
   fi
 
+  [[ -n "$key" ]] || continue
+
   takes_arg[$key]=$has_arg
   excludes[$key]="$exclude$non_repeatable_exclude"
 done < <($func)
-- 
2.43.0


From 59dc8f8e95e90486da85672c9def972140af37e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 43/72] fix: Fish: don't join unfinished command output with
 other completions

---
 crazy_complete/fish_complete.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index c396526..999b9ff 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -420,7 +420,14 @@ class FishCompleteCombine(FishCompletionBase):
 
         for command in commands:
             obj = completer.complete_from_def(ctxt, trace, command)
-            self.code.append(obj.get_code())
+            code = obj.get_code()
+
+            if isinstance(obj, FishCompletionRawCommand):
+                # A command may end its output without a newline. Terminate
+                # every line, so that it does not run into the next output.
+                code = "begin; %s; end | string match '*'" % code
+
+            self.code.append(code)
 
     def get_code(self):
         return '\n'.join(self.code)
-- 
2.43.0


From e86fc4d08fe50a6003db01baa2ef1de200b60f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:39 +0000
Subject: [PATCH 44/72] fix: Zsh: escape keys of key-value completers, print no
 error if there are none

---
 crazy_complete/zsh_complete.py |  9 +++--
 crazy_complete/zsh_helpers.py  | 68 +++++++++++++++++++++++++---------
 crazy_complete/zsh_utils.py    |  7 ++++
 3 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index a751d5c..d8e5310 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -8,7 +8,8 @@ from . import utils
 from .pattern import bash_glob_to_zsh_glob
 from .str_utils import join_with_wrap, indent
 from .zsh_utils import (
-    escape_colon, escape_square_brackets, make_file_extension_pattern
+    escape_colon, escape_square_brackets, escape_values_key,
+    make_file_extension_pattern
 )
 from .type_utils import is_dict_type
 
@@ -240,9 +241,9 @@ class ZshKeyValueList(ZshComplFunc):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % (definition.key)
+                condition = '$c %s && ' % shell.quote(definition.key)
 
-            key = escape_colon(definition.key)
+            key = shell.quote(escape_values_key(definition.key))
             if not definition.completer:
                 spec.append(f'{condition}a+=({excludes}{repeatable}{key}{desc})')
             elif definition.completer[0] == 'none':
@@ -289,7 +290,7 @@ class ZshKeyValuePair(ZshComplFunc):
             if condition_func is not None:
                 condition = '$c %s && ' % shell.quote(key)
 
-            key = escape_colon(key)
+            key = shell.quote(escape_values_key(key))
             if not complete:
                 spec.append(f'{condition}a+=({key}{desc})')
             elif complete[0] == 'none':
diff --git a/crazy_complete/zsh_helpers.py b/crazy_complete/zsh_helpers.py
index d958edb..13de216 100644
--- a/crazy_complete/zsh_helpers.py
+++ b/crazy_complete/zsh_helpers.py
@@ -401,7 +401,7 @@ _describe '' describe
 _KEY_VALUE_PAIR_EXEC = ShellFunction('key_value_pair_exec', r'''
 local sep="$1"
 local func="$2"
-local key='' desc='' command=''
+local key='' desc='' command='' action='' has_arg=0
 local -a args=()
 
 while IFS=$'\t' read -r key desc; do
@@ -410,23 +410,37 @@ while IFS=$'\t' read -r key desc; do
   desc="${desc//\[/\\[}"
   desc="${desc//\]/\\]}"
 
-  if [[ "${key[-1]}" == '=' ]]; then
-    key="${key:0:-1}"
-    command="$func ${(q)key}"
-    args+=("${key}[$desc]:::{exec ${(q)command}}")
+  has_arg=0
+  if [[ "$key" == *'=' ]]; then
+    key="${key%=}"
+    has_arg=1
+  fi
+
+  [[ -n "$key" ]] || continue
+
+  command="$func ${(q)key}"
+  action="{exec ${(q)command}}"
+  action="${action//:/\\:}"
+  key="${key//\\/\\\\}"
+  key="${key//:/\\:}"
+  key="${key//\[/\\[}"
+  [[ "$key" == [\(*]* ]] && key="\\$key"
+
+  if (( has_arg )); then
+    args+=("${key}[$desc]:::$action")
   else
     args+=("${key}[$desc]")
   fi
 done < <(eval "$func")
 
-_values -S "$sep" '' "${args[@]}"
+(( ${#args} )) && _values -S "$sep" '' "${args[@]}"
 ''', ['exec'])
 
 _KEY_VALUE_LIST_EXEC = ShellFunction('key_value_list_exec', r'''
 local sep1="$1"
 local sep2="$2"
 local func="$3"
-local key='' desc='' excludes='' command=''
+local key='' desc='' excludes='' command='' action='' repeatable='' message=''
 local -a args=()
 
 while IFS=$'\t' read -r key desc excludes; do
@@ -435,22 +449,42 @@ while IFS=$'\t' read -r key desc excludes; do
   desc="${desc//\[/\\[}"
   desc="${desc//\]/\\]}"
 
+  excludes="${excludes//[()]/}"
   [[ -n "$excludes" ]] && excludes="($excludes)"
 
-  if [[ "${key: -1:1}" == '=' ]]; then
-    key="${key:0:-1}"
-    command="$func ${(q)key#\*}"
-    args+=("${excludes}${key}[$desc]: :{exec ${(q)command}}")
-  elif [[ "${key: -2:2}" == '=?' ]]; then
-    key="${key:0:-2}"
-    command="$func ${(q)key#\*}"
-    args+=("${excludes}${key}[$desc]:: :{exec ${(q)command}}")
+  repeatable=''
+  if [[ "$key" == '*'* ]]; then
+    key="${key#\*}"
+    repeatable='*'
+  fi
+
+  message=''
+  if [[ "$key" == *'=' ]]; then
+    key="${key%=}"
+    message=': :'
+  elif [[ "$key" == *'=?' ]]; then
+    key="${key%=\?}"
+    message=':: :'
+  fi
+
+  [[ -n "$key" ]] || continue
+
+  command="$func ${(q)key}"
+  action="{exec ${(q)command}}"
+  action="${action//:/\\:}"
+  key="${key//\\/\\\\}"
+  key="${key//:/\\:}"
+  key="${key//\[/\\[}"
+  [[ "$key" == [\(*]* ]] && key="\\$key"
+
+  if [[ -n "$message" ]]; then
+    args+=("${excludes}${repeatable}${key}[$desc]${message}$action")
   else
-    args+=("${excludes}${key}[$desc]")
+    args+=("${excludes}${repeatable}${key}[$desc]")
   fi
 done < <(eval "$func")
 
-_values -s "$sep1" -S "$sep2" '' "${args[@]}"
+(( ${#args} )) && _values -s "$sep1" -S "$sep2" '' "${args[@]}"
 ''', ['exec'])
 
 _HISTORY = ShellFunction('history', r'''
diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 74f5541..90dacdf 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -57,6 +57,13 @@ def escape_option_string(s):
     return re.sub(r'[\\:=\[]', r'\\\g<0>', s)
 
 
+def escape_values_key(s):
+    '''Escape characters in a name that are special in a spec of `_values`.'''
+
+    s = re.sub(r'[\\:\[]', r'\\\g<0>', s)
+    return '\\' + s if s.startswith(('(', '*')) else s
+
+
 def make_option_spec(
         option_strings,
         conflicting_options = None,
-- 
2.43.0


From 1983e79870be934d9c8e231e3a333640e958554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:47 +0000
Subject: [PATCH 45/72] fix: Fish: pass the key to the condition of
 key_value_pair

---
 crazy_complete/fish_complete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index 999b9ff..7ba995e 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -343,7 +343,7 @@ class FishCompleteKeyValuePair(FishCompletionCommand):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % shell.quote(condition_func)
+                condition = '$c %s && ' % shell.quote(key)
 
             args.append('%sset -a a %s %s %s' % (
                 condition,
-- 
2.43.0


From 420dc280c994a19d892155f3dfd0a0be37dae795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 46/72] Revert "fix: Fish: pass the key to the condition of
 key_value_pair"

This reverts commit 1983e79870be934d9c8e231e3a333640e958554f.
---
 crazy_complete/fish_complete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index 7ba995e..999b9ff 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -343,7 +343,7 @@ class FishCompleteKeyValuePair(FishCompletionCommand):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % shell.quote(key)
+                condition = '$c %s && ' % shell.quote(condition_func)
 
             args.append('%sset -a a %s %s %s' % (
                 condition,
-- 
2.43.0


From 87e148693c0f272d2ba2f1f9875cfcd8c36abb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:36 +0000
Subject: [PATCH 47/72] fix: Zsh: keep special characters escaped when colons
 are escaped in double quotes

---
 crazy_complete/zsh_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 90dacdf..61b550e 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -42,7 +42,8 @@ def escape_colon_in_quoted_string(s):
             result += "'%s'" % sub.replace(':', r'\:')
         elif c == '"':
             sub = ss.parse_shell_double_quote(in_quotes=True)
-            result += '"%s"' % sub.replace(':', r'\\:')
+            sub = re.sub(r'[\\"$`]', r'\\\g<0>', sub.replace(':', r'\:'))
+            result += '"%s"' % sub
         elif c == ':':
             result += r'\\:'
         else:
-- 
2.43.0


From f601a84bca49d0c3ce57651bf50f5ad7545f6cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 48/72] fix: Bash: quote the typed key when it is passed to the
 command of key_value_*_exec

---
 crazy_complete/bash_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index e6a62e4..9e48e3b 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -458,7 +458,7 @@ if [[ "$cur" != *"$sep"* ]]; then
   exec "$func"
 else
   cur="$value"
-  exec "$func $key"
+  exec "$func $(printf '%q' "$key")"
 
   cur_stripped="${cur_stripped:0:$(( ${#cur_stripped} - ${#value} ))}"
   if [[ -n "$strip_chars" ]]; then
@@ -555,7 +555,7 @@ else
     key="${pair%%"$sep2"*}"
     value="${pair#*"$sep2"}"
     cur="$value"
-    exec "$func $key"
+    exec "$func $(printf '%q' "$key")"
 
     cur_stripped="${cur_stripped:0:$(( ${#cur_stripped} - ${#value} ))}"
     if [[ -n "$strip_chars" ]]; then
-- 
2.43.0


From ae91882e01067ee6d8f8496ca67972270c562476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 49/72] fix: Bash: do not expand the output of locale

---
 crazy_complete/bash_helpers.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index 9e48e3b..577a3c2 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -770,11 +770,23 @@ done < <(command findmnt -lno TARGET)
 ''')
 
 _LOCALES = ShellFunction('''locales''', r'''
-COMPREPLY=($(compgen -W "$(command locale -a)" -- "$cur"))
+local REPLY
+
+COMPREPLY=()
+
+while read -r REPLY; do
+  [[ "$REPLY" == "$cur"* ]] && COMPREPLY+=("$REPLY")
+done < <(command locale -a)
 ''')
 
 _CHARSETS = ShellFunction('''charsets''', r'''
-COMPREPLY=($(compgen -W "$(command locale -m)" -- "$cur"))
+local REPLY
+
+COMPREPLY=()
+
+while read -r REPLY; do
+  [[ "$REPLY" == "$cur"* ]] && COMPREPLY+=("$REPLY")
+done < <(command locale -m)
 ''')
 
 _TIMEZONE_LIST = ShellFunction('timezone_list', r'''
-- 
2.43.0


From 0785efb40695d7413937f8898b252643538427e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:54 +0000
Subject: [PATCH 50/72] fix: Fish: treat the typed word as data when files are
 completed

---
 crazy_complete/fish_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index d7aa01d..7a7b74b 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -547,18 +547,21 @@ set -l comp (get_completing_arg)
 set -l desc
 set -l files
 
+# The shell may expand a tilde and variables, everything else is literal
+set -l escaped (string escape --no-quoted -- "$comp" | string replace -r -- '^\\\\~' '~' | string replace -r -a -- '\\\\\$(?=[A-Za-z_])' '\$')
+
 if set -q _flag_cd[1]
   set -l dir (string trim -r -c / -- $_flag_cd)/
   test -d $dir || return 1
 
   if string match -q -r -- '^[/~]' "$comp"
-    set files (complete -C"'' $comp")
+    set files (complete -C"'' $escaped")
   else
     set files (complete -C"'' "(string escape --no-quoted -- "$dir$comp"))
     set files (string sub -s (math (string length -- $dir) + 1) -- $files)
   end
 else
-  set files (complete -C"'' $comp")
+  set files (complete -C"'' $escaped")
 end
 
 if set -q _flag_description[1]
@@ -930,7 +933,7 @@ if command file -i /dev/null &>/dev/null
 else if command file -I /dev/null &>/dev/null
   set i_opt '-I'
 else
-  complete -C"'' $comp"
+  complete -C"'' "(string escape --no-quoted -- "$comp")
   return
 end
 
-- 
2.43.0


From 73b061d3e48543dded5db3809bf06461a5366a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:05 +0000
Subject: [PATCH 51/72] fix: Fish: do not set the global variable
 _flag_directories

The branch never took effect: `set -g' leaves the status of the preceding
`set -q' alone, but it clobbered a variable of the user.
---
 crazy_complete/fish_helpers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 7a7b74b..4c1c767 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -566,8 +566,6 @@ end
 
 if set -q _flag_description[1]
   set desc $_flag_description
-else if set -g _flag_directories
-  set desc 'Directory'
 end
 
 if set -q files[1]
-- 
2.43.0


From db8dc61d4f16e57bdaa2f9f30ea6f0af074e58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 52/72] fix: Fish: commandline_string runs no command
 substitutions of the completed string

---
 crazy_complete/fish_helpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 4c1c767..3b9ceea 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -984,6 +984,11 @@ _COMMANDLINE_STRING = FishFunction('commandline_string', r'''
 set -l line
 set -l comp (get_completing_arg)
 
+# `complete -C` runs the command substitutions of a word that it takes for the
+# name of a command.
+set -l word (string match -r -- '(?s)(?:^|[\s;|&])((?:[^\s;|&"\'\\\\]|\\\\.|"(?:[^"\\\\]|\\\\.)*(?:"|$)|\'(?:[^\'\\\\]|\\\\.)*(?:\'|$))*)$' "$comp" | string collect)
+string match -q -- '*)*' "$word"; and return
+
 complete -C "$comp" | while read line
   set -l split (string split -m 1 -- \t $line)
   set -l comp2 (subtract_prefix_suffix "$comp" "$split[1]")
-- 
2.43.0


From b6a8210dc146a8553970a1a9ed694faaeff074fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 53/72] fix: Fish: quote backslashes and backquotes the way
 Fish does

---
 crazy_complete/fish_complete.py   | 47 ++++++++++++++++---------------
 crazy_complete/fish_conditions.py |  4 +--
 crazy_complete/fish_prepare.py    |  6 ++--
 crazy_complete/fish_utils.py      | 20 ++++++++++++-
 4 files changed, 48 insertions(+), 29 deletions(-)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index 999b9ff..d06ccad 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -4,6 +4,7 @@
 '''This module contains code for completing arguments in Fish.'''
 
 from . import shell
+from . import fish_utils
 from . import utils
 from .pattern import bash_glob_to_regex
 from .type_utils import is_dict_type
@@ -67,10 +68,10 @@ class FishCompletionCommand(FishCompletionBase):
         self.args = args
 
     def get_code(self):
-        return shell.join_quoted(self.args)
+        return fish_utils.join_quoted(self.args)
 
     def get_args(self):
-        command = shell.join_quoted(self.args)
+        command = fish_utils.join_quoted(self.args)
         return ['-f', '-a', '(%s)' % command]
 
     def get_function(self):
@@ -103,20 +104,20 @@ class FishCompleteChoices(FishCompletionBase):
         self.choices = choices
 
     def _get_inline_for_list(self):
-        return ' '.join(shell.quote(str(c)) for c in self.choices)
+        return ' '.join(fish_utils.quote(str(c)) for c in self.choices)
 
     def _get_inline_for_dict(self):
         def str0(s):
             return str(s) if s is not None else ''
 
         stringified = {str(item): str0(desc) for item, desc in self.choices.items()}
-        q = shell.quote
+        q = fish_utils.quote
         r = ['%s\\t%s' % (q(item), q(desc)) for item, desc in stringified.items()]
         return ' '.join(r)
 
     def _get_code_for_list(self):
         code = "printf '%s\\n' \\\n"
-        quoted = [shell.quote(str(item)) for item in self.choices]
+        quoted = [fish_utils.quote(str(item)) for item in self.choices]
         line_length = self.ctxt.config.line_length - 2
         code += indent(join_with_wrap(' ', ' \\\n', line_length, quoted), 2)
         return code.rstrip(' \\\n')
@@ -126,7 +127,7 @@ class FishCompleteChoices(FishCompletionBase):
         for item, desc in self.choices.items():
             if desc is None:
                 desc = ''
-            code += '  %s %s \\\n' % (shell.quote(str(item)), shell.quote(str(desc)))
+            code += '  %s %s \\\n' % (fish_utils.quote(str(item)), fish_utils.quote(str(desc)))
         return code.rstrip(' \\\n')
 
     def get_args(self):
@@ -251,12 +252,12 @@ class FishCompleteValueList(FishCompletionCommand):
         if is_dict_type(values):
             code = "printf '%s\\t%s\\n' \\\n"
             for item, desc in values.items():
-                code += '  %s %s \\\n' % (shell.quote(item), shell.quote(desc))
+                code += '  %s %s \\\n' % (fish_utils.quote(item), fish_utils.quote(desc))
             code = code.rstrip(' \\\n')
         else:
             code = "printf '%s\\n' \\\n"
             for value in values:
-                code += '  %s \\\n' % shell.quote(value)
+                code += '  %s \\\n' % fish_utils.quote(value)
             code = code.rstrip(' \\\n')
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -296,23 +297,23 @@ class FishCompleteKeyValueList(FishCompletionCommand):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % (shell.quote(definition.key))
+                condition = '$c %s && ' % (fish_utils.quote(definition.key))
 
             args.append('%sset -a a %s %s %s %s' % (
                 condition,
-                shell.quote(definition.key),
-                shell.quote(definition.description or ''),
-                shell.quote(func),
-                shell.quote(' '.join(excludes))))
+                fish_utils.quote(definition.key),
+                fish_utils.quote(definition.description or ''),
+                fish_utils.quote(func),
+                fish_utils.quote(' '.join(excludes))))
 
         code = 'set -l a\n'
         if condition_func is not None:
-            code += 'set -l c %s\n' % shell.quote(condition_func)
+            code += 'set -l c %s\n' % fish_utils.quote(condition_func)
         code += '%s\n' % '\n'.join(args)
         code += '%s %s %s $a' % (
             ctxt.helpers.use_function('key_value_list'),
-            shell.quote(pair_separator),
-            shell.quote(value_separator),
+            fish_utils.quote(pair_separator),
+            fish_utils.quote(value_separator),
         )
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -343,21 +344,21 @@ class FishCompleteKeyValuePair(FishCompletionCommand):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % shell.quote(condition_func)
+                condition = '$c %s && ' % fish_utils.quote(condition_func)
 
             args.append('%sset -a a %s %s %s' % (
                 condition,
-                shell.quote(key),
-                shell.quote(desc or ''),
-                shell.quote(func)))
+                fish_utils.quote(key),
+                fish_utils.quote(desc or ''),
+                fish_utils.quote(func)))
 
         code = 'set -l a\n'
         if condition_func is not None:
-            code += 'set -l c %s\n' % shell.quote(condition_func)
+            code += 'set -l c %s\n' % fish_utils.quote(condition_func)
         code += '%s\n' % '\n'.join(args)
         code += '%s %s $a' % (
             ctxt.helpers.use_function('key_value_pair'),
-            shell.quote(value_separator),
+            fish_utils.quote(value_separator),
         )
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -382,7 +383,7 @@ class FishCompleteCommand(FishCompletionBase):
             prepend = opts.get('path_prepend', None)
 
         def mkpath(path):
-            return shell.join_quoted(path.split(':'))
+            return fish_utils.join_quoted(path.split(':'))
 
         if path:
             code = 'set -lx PATH %s' % mkpath(path)
diff --git a/crazy_complete/fish_conditions.py b/crazy_complete/fish_conditions.py
index 0376095..2fc1b2d 100644
--- a/crazy_complete/fish_conditions.py
+++ b/crazy_complete/fish_conditions.py
@@ -7,7 +7,7 @@ import re
 
 from . import cli
 from . import when
-from . import shell
+from . import fish_utils
 from .errors import InternalError
 from .type_utils import is_list_type
 
@@ -33,7 +33,7 @@ def make_condition_command(prefix, args):
     We have to ensure proper escaping inside the double quotes.
     '''
 
-    args_quoted = [shell.quote(arg) for arg in args]
+    args_quoted = [fish_utils.quote(arg) for arg in args]
     args_quoted = [escape_in_double(arg) for arg in args_quoted]
     return '%s %s' % (prefix, ' '.join(args_quoted))
 
diff --git a/crazy_complete/fish_prepare.py b/crazy_complete/fish_prepare.py
index c4459bf..d811785 100644
--- a/crazy_complete/fish_prepare.py
+++ b/crazy_complete/fish_prepare.py
@@ -7,7 +7,7 @@ import re
 
 from . import algo
 from . import utils
-from . import shell
+from . import fish_utils
 from . import helpers
 
 
@@ -64,7 +64,7 @@ def _get_capture_code(commandline, ctxt):
         for option in cmdline.get_options():
             if option.capture is not None:
                 capture_func = ctxt.helpers.use_function('capture_option')
-                opts = shell.join_quoted(option.option_strings)
+                opts = fish_utils.join_quoted(option.option_strings)
                 r.append(f'{capture_func} {option.capture} {opts}')
 
     return '\n'.join(r)
@@ -85,7 +85,7 @@ def get_prepare_function(commandline, ctxt):
 
     code = f'{query_init}'
     if definitions:
-        code += ' \\\n  %s' % (' \\\n  '.join(shell.quote(d) for d in definitions))
+        code += ' \\\n  %s' % (' \\\n  '.join(fish_utils.quote(d) for d in definitions))
 
     capture_code = _get_capture_code(commandline, ctxt)
     if capture_code:
diff --git a/crazy_complete/fish_utils.py b/crazy_complete/fish_utils.py
index ef8f473..503c30c 100644
--- a/crazy_complete/fish_utils.py
+++ b/crazy_complete/fish_utils.py
@@ -7,6 +7,24 @@ from .errors import InternalError
 from . import shell
 
 
+def quote(string):
+    '''Quotes a string for Fish.
+
+    Fish knows other escape sequences inside quotes than Bash and Zsh.
+    '''
+
+    if '\\' not in string and '`' not in string:
+        return shell.quote(string)
+
+    return "'%s'" % string.replace('\\', '\\\\').replace("'", "\\'")
+
+
+def join_quoted(arguments, string=' '):
+    '''Joins quoted `arguments` on `string`.'''
+
+    return string.join(quote(arg) for arg in arguments)
+
+
 class FishString:
     '''A utility class for command-line strings that may require escaping.
 
@@ -73,7 +91,7 @@ class FishString:
         '''
         if self.raw:
             return self.string
-        return shell.quote(self.string)
+        return quote(self.string)
 
     def __str__(self):
         return self.string
-- 
2.43.0


From 4a58cd57abf151a898b291f86deefcfeb73fb7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:05 +0000
Subject: [PATCH 54/72] fix: Bash: complete the options of commands that only
 have --help or --version

---
 crazy_complete/bash.py  |  3 ++-
 crazy_complete/utils.py | 10 ++--------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index b8164b6..7bb05a3 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -118,7 +118,8 @@ class BashCompletionGenerator:
         # The completion function returns 0 (success) if there was a completion match.
         # This return code is used for dealing with subcommands.
 
-        if not utils.is_worth_a_function(self.commandline):
+        # The root's function is always needed, it is what gets registered.
+        if self.commandline.parent and not utils.is_worth_a_function(self.commandline):
             self.result = ''
             return
 
diff --git a/crazy_complete/utils.py b/crazy_complete/utils.py
index 0120358..4000a50 100644
--- a/crazy_complete/utils.py
+++ b/crazy_complete/utils.py
@@ -280,7 +280,7 @@ def is_worth_a_function(commandline):
     This means that a commandline has one of:
         - Subcommands
         - Positionals (that have meaningful completion)
-        - Options (that aren't --help or --version)
+        - Options
     '''
 
     if commandline.get_subcommands():
@@ -296,13 +296,7 @@ def is_worth_a_function(commandline):
         else:
             return True
 
-    options = commandline.get_options()
-    options = list(filter(lambda o: '--help' not in o.option_strings and
-                                    '--version' not in o.option_strings, options))
-    if len(options) > 0:
-        return True
-
-    return False
+    return bool(commandline.get_options())
 
 
 _KEY_VALUE_LIST_DEFINITION = namedtuple('KeyValueListDefinition', (
-- 
2.43.0


From 05e534f00362bd2b21fccdbb7937369e764c0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:03 +0000
Subject: [PATCH 55/72] fix: Fish: nested completers keep track of what the
 outer ones have stripped

---
 crazy_complete/fish_helpers.py | 39 +++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 3b9ceea..3bb0a94 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -513,11 +513,16 @@ set -g $variable $values
 ''', ['query_init'])
 
 _GET_COMPLETING_ARG = FishFunction('get_completing_arg', r'''
-if test -n "$__fish_stripprefix"
-  string replace -r -- $__fish_stripprefix '' "$__QUERY_CACHE_CURRENT_ARG"
-else
-  printf '%s\n' "$__QUERY_CACHE_CURRENT_ARG"
+# Completers may be nested. Each element of __fish_stripprefix is a pattern for
+# the part of the argument that has been handled by one of the outer completers.
+set -l arg "$__QUERY_CACHE_CURRENT_ARG"
+set -l pattern
+
+for pattern in $__fish_stripprefix
+  set arg (string replace -r -- $pattern '' "$arg")
 end
+
+printf '%s\n' "$arg"
 ''')
 
 _FILEDIR = FishFunction('filedir', r'''
@@ -611,7 +616,7 @@ set -l value
 set -l values
 set -l descriptions
 
-set -g __fish_stripprefix "^.*"(string escape --style=regex -- $separator)
+set -ga __fish_stripprefix "^.*"(string escape --style=regex -- $separator)
 
 for value in (eval $func)
   set -l split (string split -- \t $value)
@@ -619,7 +624,7 @@ for value in (eval $func)
   set -a descriptions "$split[2]"
 end
 
-set -e __fish_stripprefix
+set -e __fish_stripprefix[-1]
 
 set -l having_values (string split -- $separator $comp)
 set -l remaining_values_idxs
@@ -658,10 +663,10 @@ end
 _PREFIX = FishFunction('prefix', r'''
 set -l comp (get_completing_arg)
 set -l prefix_escaped (string escape --style=regex -- $argv[1])
-if string match -qr -- $prefix_escaped $comp
-  set -g __fish_stripprefix "^"$prefix_escaped
+if string match -qr -- "^$prefix_escaped" "$comp"
+  set -ga __fish_stripprefix "^"$prefix_escaped
   printf "%s\n" $argv[1](eval $argv[2])
-  set -e __fish_stripprefix
+  set -e __fish_stripprefix[-1]
 else
   printf "%s\n" $argv[1]
 end
@@ -719,9 +724,9 @@ function %PREFIX%__call_func_for_key -S
   set -l i
   for i in (seq 1 (count $keys))
     if test $keys[$i] = $argv[1]
-      set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep2)
+      set -ga __fish_stripprefix "^.*"(string escape --style=regex -- $sep2)
       $functions[$i]
-      set -e __fish_stripprefix
+      set -e __fish_stripprefix[-1]
       return
     end
   end
@@ -772,9 +777,9 @@ function %PREFIX%__call_func_for_key -S
   set -l i
   for i in (seq 1 (count $keys))
     if test $keys[$i] = $argv[1]
-      set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
+      set -ga __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
       $functions[$i]
-      set -e __fish_stripprefix
+      set -e __fish_stripprefix[-1]
       return
     end
   end
@@ -807,11 +812,11 @@ set -l split (string split -m1 -- $sep $comp)
 
 if test (count $split) -eq 2
   set -l value
-  set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
+  set -ga __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
   for value in ($func $split[1])
     printf '%s%s%s\n' $split[1] $sep $value
   end
-  set -e __fish_stripprefix
+  set -e __fish_stripprefix[-1]
 else
   $func
 end
@@ -898,11 +903,11 @@ switch $pair
       set comp (string sub -e -$value_len -- $comp)
     end
 
-    set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
+    set -ga __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
     for value in ($func $split[1])
       printf '%s%s\n' $comp $value
     end
-    set -e __fish_stripprefix
+    set -e __fish_stripprefix[-1]
   case '*'
     set -l key_len (string length -- $split[1])
     set comp (string sub -e -$key_len -- $comp)
-- 
2.43.0


From c134c39ce8bee77b99ec02ede8e4fbe451434a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:14 +0000
Subject: [PATCH 56/72] fix: Bash: completers that are combined or nested in
 lists do not share variables

---
 crazy_complete/bash_complete.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/bash_complete.py b/crazy_complete/bash_complete.py
index 8580582..921062c 100644
--- a/crazy_complete/bash_complete.py
+++ b/crazy_complete/bash_complete.py
@@ -48,6 +48,7 @@ class BashCompletionCode(BashCompletionBase):
 
         if append:
             r.append('local COMPREPLY_OLD=("${COMPREPLY[@]}")')
+            r.append('COMPREPLY=()')
 
         r.append(self.code)
 
@@ -75,6 +76,7 @@ class BashCompletionFunc(BashCompletionBase):
 
         if append:
             r.append('local COMPREPLY_OLD=("${COMPREPLY[@]}")')
+            r.append('COMPREPLY=()')
 
         r.append(shell.join_quoted(self.args))
 
@@ -144,6 +146,12 @@ class BashCompleteCombine(BashCompletionBase):
 
         for command_args in commands:
             obj = completer.complete_from_def(ctxt, trace, command_args)
+
+            if getattr(obj, 'code', None):
+                # Custom code may change or declare variables. Give it a scope
+                # of its own, so that it does not affect the other completers.
+                obj = BashCompletionFunc(ctxt, [obj.get_function()])
+
             self.completion_objects.append(obj)
 
     def get_code(self, append=False):
@@ -430,7 +438,11 @@ class BashCompleter(shell.ShellCompleter):
         duplicates = opts.get('duplicates', False) if opts else False
 
         obj = self.complete_from_def(ctxt, trace, command)
-        code = obj.get_code()
+
+        if isinstance(obj, BashCompletionCode):
+            code = obj.get_function()
+        else:
+            code = obj.get_code()
 
         func = ctxt.helpers.use_function('value_list')
 
-- 
2.43.0


From 56976eea7f60509b6076d0a9ad6f7c93edaeecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:26 +0000
Subject: [PATCH 57/72] fix: Fish: value_list with duplicates inside of other
 completers completes only its part of the word

---
 crazy_complete/fish_complete.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index d06ccad..c50b8f8 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -261,13 +261,24 @@ class FishCompleteValueList(FishCompletionCommand):
             code = code.rstrip(' \\\n')
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
+        self.nested_args = None
 
         if duplicates:
             super().__init__(ctxt, ['__fish_complete_list', separator, func])
+            self.nested_args = ['-d', separator, func]
         else:
             complete_list_func = ctxt.helpers.use_function('list')
             super().__init__(ctxt, [complete_list_func, separator, func])
 
+    def get_code(self):
+        # `__fish_complete_list` always completes the whole token, so it can't
+        # be used inside of other completers.
+        if self.nested_args:
+            list_func = self.ctxt.helpers.use_function('list')
+            return fish_utils.join_quoted([list_func, *self.nested_args])
+
+        return super().get_code()
+
 
 class FishCompleteKeyValueList(FishCompletionCommand):
     '''Used for completing a list of key-value pairs.'''
-- 
2.43.0


From 1e2438034f0790f5d47d4b2eab9a6290fcfbaea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 58/72] fix: Fish: values that contain the separator of a
 key-value pair, descriptions of keys without one

---
 crazy_complete/fish_helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 3bb0a94..9785dea 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -724,7 +724,7 @@ function %PREFIX%__call_func_for_key -S
   set -l i
   for i in (seq 1 (count $keys))
     if test $keys[$i] = $argv[1]
-      set -ga __fish_stripprefix "^.*"(string escape --style=regex -- $sep2)
+      set -ga __fish_stripprefix "^(.*"(string escape --style=regex -- $sep1)")?.*?"(string escape --style=regex -- $sep2)
       $functions[$i]
       set -e __fish_stripprefix[-1]
       return
@@ -777,7 +777,7 @@ function %PREFIX%__call_func_for_key -S
   set -l i
   for i in (seq 1 (count $keys))
     if test $keys[$i] = $argv[1]
-      set -ga __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
+      set -ga __fish_stripprefix "^.*?"(string escape --style=regex -- $sep)
       $functions[$i]
       set -e __fish_stripprefix[-1]
       return
@@ -812,7 +812,7 @@ set -l split (string split -m1 -- $sep $comp)
 
 if test (count $split) -eq 2
   set -l value
-  set -ga __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
+  set -ga __fish_stripprefix "^.*?"(string escape --style=regex -- $sep)
   for value in ($func $split[1])
     printf '%s%s%s\n' $split[1] $sep $value
   end
@@ -859,7 +859,7 @@ for line in ($func)
   end
 
   set -a keys $key
-  set -a descriptions $split[2]
+  set -a descriptions "$split[2]"
   set -a excludes "$split[3]$non_repeatable_exclude"
 end
 
@@ -903,7 +903,7 @@ switch $pair
       set comp (string sub -e -$value_len -- $comp)
     end
 
-    set -ga __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
+    set -ga __fish_stripprefix "^(.*"(string escape --style=regex -- $sep1)")?.*?"(string escape --style=regex -- $sep2)
     for value in ($func $split[1])
       printf '%s%s\n' $comp $value
     end
-- 
2.43.0


From 2e59c8525cbeda6589e31c21d65832badb24b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:10 +0000
Subject: [PATCH 59/72] fix: completers after a nested completer are not
 validated as if they were part of it

---
 crazy_complete/scheme_validator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index dbd8923..d5349ff 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -472,6 +472,8 @@ def _check_key_value_list(ctxt, arguments):
                 msg = '%s: No such key' % cause
                 raise _error(msg, exclude)
 
+    ctxt.trace.pop()
+
 
 def _check_key_value_pair(ctxt, arguments):
     value_separator = arguments.get_required_arg('value_separator')
@@ -513,6 +515,8 @@ def _check_key_value_pair(ctxt, arguments):
 
         _check_complete(ctxt, complete)
 
+    ctxt.trace.pop()
+
 
 def _check_combine(ctxt, arguments):
     commands = arguments.get_required_arg('commands')
@@ -531,6 +535,8 @@ def _check_combine(ctxt, arguments):
         _check_type(completer, (list,), f'command[{i}]')
         _check_complete(ctxt, completer)
 
+    ctxt.trace.pop()
+
 
 def _check_list(ctxt, arguments):
     command = arguments.get_required_arg('command')
@@ -548,6 +554,8 @@ def _check_list(ctxt, arguments):
     ctxt.trace.append('list')
     _check_complete(ctxt, command)
 
+    ctxt.trace.pop()
+
 
 def _check_prefix(ctxt, arguments):
     prefix = arguments.get_required_arg('prefix')
@@ -560,6 +568,8 @@ def _check_prefix(ctxt, arguments):
     ctxt.trace.append('prefix')
     _check_complete(ctxt, command)
 
+    ctxt.trace.pop()
+
 
 def _check_history(_ctxt, arguments):
     pattern = arguments.get_required_arg("pattern")
-- 
2.43.0


From 13b3c85d9dae83b664434cbc98cc1d7ac0881bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:33 +0000
Subject: [PATCH 60/72] fix: the alias of a command takes precedence over an
 abbreviation of another command

---
 crazy_complete/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/utils.py b/crazy_complete/utils.py
index 4000a50..91a9a1d 100644
--- a/crazy_complete/utils.py
+++ b/crazy_complete/utils.py
@@ -187,7 +187,17 @@ def get_all_command_variations(commandline):
     else:
         abbrevs = DummyAbbreviationGenerator()
 
-    return abbrevs.get_abbreviations(commandline.prog) + commandline.aliases
+    variations = abbrevs.get_abbreviations(commandline.prog) + commandline.aliases
+
+    # The alias of another command takes precedence over an abbreviation
+    for subcommand in commandline.parent.subcommands.subcommands:
+        if subcommand is not commandline:
+            variations = [v for v in variations
+                          if v == commandline.prog
+                          or v in commandline.aliases
+                          or v not in subcommand.aliases]
+
+    return variations
 
 
 def get_defined_option_types(commandline):
-- 
2.43.0


From eb12f960bd10e7decfc110ba532b3d6a46dd8e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:17 +0000
Subject: [PATCH 61/72] fix: Bash: offer inherited options after a single dash
 for commands without own options

---
 crazy_complete/bash_option_strings_completion.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/bash_option_strings_completion.py b/crazy_complete/bash_option_strings_completion.py
index 0ce7436..e67d873 100644
--- a/crazy_complete/bash_option_strings_completion.py
+++ b/crazy_complete/bash_option_strings_completion.py
@@ -79,10 +79,22 @@ def _generate_final_check_with_options(final_conditions, options):
 def generate(generator):
     '''Generate option strings completion code.'''
 
+    commandline = generator.commandline
+
     if len(generator.options) == 0:
-        return None
+        if not commandline.inherit_options:
+            return None
+
+        if not commandline.get_options(with_parent_options=True):
+            return None
+
+        # Leave it to the parent commands to complete their options
+        r  = 'if (( ! END_OF_OPTIONS )) && [[ "$cur" = -* ]]; then\n'
+        r += '  return 1\n'
+        r += 'fi'
+
+        return r
 
-    commandline = generator.commandline
     variable_manager = generator.variable_manager
     options = []
     final_conditions = []
-- 
2.43.0


From a79ba62e32835aeba5b3febefa143b9ff3be1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:10 +0000
Subject: [PATCH 62/72] fix: Fish: lines of completers that do not end in a
 newline do not run into the next ones inside of lists

---
 crazy_complete/fish_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 9785dea..2e29538 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -607,7 +607,8 @@ set -l func $argv[2]
 set -l comp (get_completing_arg)
 
 if test -z "$comp"
-  eval $func
+  # Terminate the last line, even if the command does not
+  eval $func | string match '*'
   return
 end
 
-- 
2.43.0


From 2ea214cda3c42fef293d0ff4289788505898f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 63/72] fix: argparse choices that are sets, dictionary views
 or dictionaries of objects made the generation fail

---
 crazy_complete/argparse_source.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index 04c1715..a2f0fd6 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -32,6 +32,22 @@ def range_to_complete(r):
     return ('range', start, end, step)
 
 
+def choices_to_complete(choices):
+    '''Convert the choices of an argparse action to a choices complete format.'''
+
+    if isinstance(choices, range):
+        return range_to_complete(choices)
+
+    if isinstance(choices, dict) and all(isinstance(v, (str, int)) for v in choices.values()):
+        return ['choices', choices]
+
+    if isinstance(choices, (set, frozenset)):
+        # Don't let the output depend on the order of the set
+        return ['choices', sorted(choices, key=str)]
+
+    return ['choices', list(choices)]
+
+
 def get_complete(action):
     '''
     Get the `complete` attribute of `action` if it is set.
@@ -65,9 +81,7 @@ def get_complete(action):
             return complete
 
         if action.choices:
-            if isinstance(action.choices, range):
-                return range_to_complete(action.choices)
-            return ['choices', action.choices]
+            return choices_to_complete(action.choices)
 
         return ['none']
 
-- 
2.43.0


From 82f0f8ae88d39e19815e31ea62e639c71ed83e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 64/72] fix: the YAML made from a help text used a completer
 that does not exist for the metavar CMD

---
 crazy_complete/help_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/help_converter.py b/crazy_complete/help_converter.py
index 0b4205a..f6d8012 100644
--- a/crazy_complete/help_converter.py
+++ b/crazy_complete/help_converter.py
@@ -59,7 +59,7 @@ def complete_for_metavar(string):
         'group':        ['group'],
         'program':      ['command'],
         'command':      ['command'],
-        'cmd':          ['cmd'],
+        'cmd':          ['command'],
         'signal':       ['signal'],
         'sig':          ['signal'],
     }
-- 
2.43.0


From 5987c89498d9330da7b34f630b9d6cae15e9df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 65/72] fix: generated YAML with emojis, DEL characters or
 floats such as 1e-05 could not be loaded

---
 crazy_complete/yaml_source.py | 44 +++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/crazy_complete/yaml_source.py b/crazy_complete/yaml_source.py
index 8314f00..9a2393a 100644
--- a/crazy_complete/yaml_source.py
+++ b/crazy_complete/yaml_source.py
@@ -8,6 +8,7 @@ and vice versa.
 
 import io
 import json
+import re
 import yaml
 
 from . import dictionary_source
@@ -20,6 +21,29 @@ from .cli import INHERIT
 # pylint: disable=redefined-builtin
 
 
+def dump(value):
+    '''Return `value` in YAML's flow style.
+
+    This is JSON, except for surrogate pairs, the DEL character and floats
+    without a fraction, which YAML doesn't know.
+    '''
+
+    def escape_character(match):
+        code = ord(match.group())
+        return f'\\u{code:04x}' if code <= 0xFFFF else f'\\U{code:08x}'
+
+    def fix_token(match):
+        token = match.group()
+        if token.startswith('"'):
+            return re.sub('[^\x00-\x7E]', escape_character, token)
+        return token.replace('e', '.0e')
+
+    return re.sub(
+        r'"(?:[^"\\]|\\.)*"|-?[0-9]+e[-+][0-9]+',
+        fix_token,
+        json.dumps(value, ensure_ascii=False))
+
+
 def option_to_yaml(dictionary):
     '''Convert an option dictionary to YAML.'''
 
@@ -41,13 +65,13 @@ def option_to_yaml(dictionary):
         ('long_opt_arg_sep', INHERIT,   lambda v: v != INHERIT),
     ]
 
-    r = [f'- option_strings: {json.dumps(option_strings)}']
+    r = [f'- option_strings: {dump(option_strings)}']
 
     for name, default, include_if in fields:
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {dump(value)}')
 
     return '\n'.join(r)
 
@@ -74,7 +98,7 @@ def positional_to_yaml(dictionary):
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {dump(value)}')
 
     return '\n'.join(r)
 
@@ -92,25 +116,25 @@ def to_yaml(dictionary):
     options             = dictionary.get('options',             None)
     positionals         = dictionary.get('positionals',         None)
 
-    r = 'prog: %s\n' % json.dumps(prog)
+    r = 'prog: %s\n' % dump(prog)
 
     if aliases is not None:
-        r += 'aliases: %s\n' % json.dumps(aliases)
+        r += 'aliases: %s\n' % dump(aliases)
 
     if help is not None:
-        r += 'help: %s\n' % json.dumps(help)
+        r += 'help: %s\n' % dump(help)
 
     if wraps is not None:
-        r += 'wraps: %s\n' % json.dumps(wraps)
+        r += 'wraps: %s\n' % dump(wraps)
 
     if abbreviate_commands != INHERIT:
-        r += 'abbreviate_commands: %s\n' % json.dumps(abbreviate_commands)
+        r += 'abbreviate_commands: %s\n' % dump(abbreviate_commands)
 
     if abbreviate_options != INHERIT:
-        r += 'abbreviate_options: %s\n' % json.dumps(abbreviate_options)
+        r += 'abbreviate_options: %s\n' % dump(abbreviate_options)
 
     if inherit_options != INHERIT:
-        r += 'inherit_options: %s\n' % json.dumps(inherit_options)
+        r += 'inherit_options: %s\n' % dump(inherit_options)
 
     if options:
         r += 'options:\n'
-- 
2.43.0


From 3798bd33f8e17b2af6effa9cb74bd5c188d65cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:21 +0000
Subject: [PATCH 66/72] fix: match the ignore_globs of files against the last
 part of a path

The patterns were translated without regard to the slashes of a path, to
the escapes and POSIX classes of a Bash glob and to the quoting of the
words Zsh matches; a '[^...]' class was not negated and a lone ']', ')',
'|' or '!' crashed.
---
 crazy_complete/pattern.py | 134 +++++++++++++++++++++++++-------------
 1 file changed, 87 insertions(+), 47 deletions(-)

diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index e2699c3..735b4ec 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -3,10 +3,15 @@
 
 '''This module contains functions for transforming bash glob patterns.'''
 
+import re
 
 from .string_stream import StringStream
 
 
+# An optional backslash in front of a character
+ZSH_QUOTE = '\\\\#'
+
+
 class PatternBase:
     '''Base class for glob patterns.'''
 
@@ -22,7 +27,8 @@ class PatternBase:
 class Literal(PatternBase):
     '''Holds a literal string.'''
 
-    REGEX_ESCAPE_CHARS = '.?*+|{}[]()'
+    REGEX_ESCAPE_CHARS = '\\.?*+|{}[]()^$'
+    ZSH_ESCAPE_CHARS = '\\[]?*()|#~^<>'
 
     def __init__(self, string):
         self.string = string
@@ -45,10 +51,14 @@ class Literal(PatternBase):
         string = ''
 
         for c in self.string:
-            if c in ('[', ']', '?', '*', '"', ' ', '\\'):
-                string += f"'{c}'"
-            elif c == "'":
-                string += f'"{c}"'
+            # The words that are matched by `compadd -F` are quoted
+            if not c.isalnum() and c not in '.+-_/':
+                string += ZSH_QUOTE
+
+            if c in Literal.ZSH_ESCAPE_CHARS:
+                string += f'\\{c}'
+            elif c.isspace():
+                string += '[[:space:]]'
             else:
                 string += c
 
@@ -59,55 +69,54 @@ class Star(PatternBase):
     '''Represents a star glob (*).'''
 
     def to_regex(self):
-        return '.*'
+        return '[^/]*'
 
     def to_zsh_glob(self):
-        return '*'
+        return '[^/]#'
 
 
 class Question(PatternBase):
     '''Represents a question glob (?).'''
 
     def to_regex(self):
-        return '.'
+        return '[^/]'
 
     def to_zsh_glob(self):
-        return '?'
+        return f'{ZSH_QUOTE}[^/]'
 
 
 class CharClass(PatternBase):
     '''Represents a character class.'''
 
     REGEX_ESCAPE_CHARS = r'^\.[]'
+    ZSH_ESCAPE_CHARS = '^\\[]!'
 
-    def __init__(self, chars, negated):
-        self.chars = chars
+    def __init__(self, items, negated):
+        # Single characters (including the `-` of a range) and POSIX classes
+        self.items = items
         self.negated = negated
 
-    def to_regex(self):
-        chars = self.chars
+    def _escape(self, escape_chars):
+        return ''.join(f'\\{i}' if i in escape_chars else i for i in self.items)
 
-        for c in CharClass.REGEX_ESCAPE_CHARS:
-            chars = chars.replace(c, f'\\{c}')
+    def to_regex(self):
+        chars = self._escape(CharClass.REGEX_ESCAPE_CHARS)
 
         if self.negated:
-            return f'[^{chars}]'
+            return f'[^{chars}/]'
 
         return f'[{chars}]'
 
     def to_zsh_glob(self):
-        chars = ''
-
-        for c in self.chars:
-            if c in ('[', ']', '!'):
-                chars += f"'{c}'"
-            else:
-                chars += c
+        chars = self._escape(CharClass.ZSH_ESCAPE_CHARS).replace(' ', '[:blank:]')
 
         if self.negated:
-            return f'[!{chars}]'
+            return f'{ZSH_QUOTE}[!{chars}/]'
 
-        return f'[{chars}]'
+        if all(i.isalnum() for i in self.items):
+            return f'[{chars}]'
+
+        return f'{ZSH_QUOTE}[{chars}]'
 
 
 class ExtGlob(PatternBase):
@@ -171,6 +180,16 @@ class PatternList(PatternBase):
     def to_zsh_glob(self):
         return ''.join(t.to_zsh_glob() for t in self.tokens)
 
+    def first(self):
+        '''Return the first token or None.'''
+        return self.tokens[0] if self.tokens else None
+
+    def rest(self):
+        '''Return all tokens but the first.'''
+        r = PatternList()
+        r.tokens = self.tokens[1:]
+        return r
+
     def append(self, token):
         '''Add a token.'''
         self.tokens.append(token)
@@ -206,6 +225,9 @@ class GlobLexer(StringStream):
         if c in ('[', ']', ')', '?', '!', '*', '|'):
             return c
 
+        if c == '\\' and self.peek() is not None:
+            return Literal(self.get())
+
         if c == '"':
             return Literal(self.parse_shell_double_quote(in_quotes=True))
 
@@ -219,7 +241,7 @@ class GlobLexer(StringStream):
                 break
             if c in EXTGLOB_TOKENS_PRE and self.peek(1) == '(':
                 break
-            if c in ('*', '?', '[', ']', ')', '|', '"', "'"):
+            if c in ('*', '?', '[', ']', ')', '|', '"', "'", '\\'):
                 break
             literal += c
             self.get()
@@ -258,32 +280,39 @@ class GlobParser:
             root.append(self._parse_token())
         return root
 
-    def _parse_char_class(self):
-        chars = ''
-        negated = False
-
+    def _get_char_class_token(self):
         try:
-            token = self.get()
+            return self.get()
         except IndexError as e:
             raise ValueError('Unclosed character class') from e
 
+    def _parse_char_class(self):
+        items = []
+        negated = False
+        token = self._get_char_class_token()
+
+        if token == ']':
+            raise ValueError('Empty character class')
+
         if token == '!':
             negated = True
-        elif token == ']':
-            raise ValueError('Empty character class')
-        else:
-            chars += str(token)
+            token = self._get_char_class_token()
+        elif str(token).startswith('^'):
+            negated = True
+            token = Literal(str(token)[1:])
 
-        while True:
-            try:
-                token = self.get()
-            except IndexError as e:
-                raise ValueError('Unclosed character class') from e
+        while token != ']':
+            posix = str(self.peek())
 
-            if token == ']':
-                return CharClass(chars, negated)
+            if token == '[' and re.match('^:[a-z]+:$', posix) and self.tokens[self.i + 1:][:1] == [']']:
+                items.append(f'[{posix}]')
+                self.i += 2
+            else:
+                items.extend(str(token))
 
-            chars += str(token)
+            token = self._get_char_class_token()
+
+        return CharClass(items, negated)
 
     def _parse_ext_glob(self, token):
         type_ = token[0]
@@ -319,23 +348,34 @@ class GlobParser:
         if token in EXTGLOB_TOKENS:
             return self._parse_ext_glob(token)
 
-        return token
+        if isinstance(token, PatternBase):
+            return token
+
+        return Literal(token)
 
 
 def bash_glob_to_regex(pattern):
-    '''Transform a bash glob to regex.'''
+    '''Transform a bash glob to a regex that matches the last part of a path.'''
 
     tokens = GlobLexer(pattern).parse()
     tokens = GlobParser(tokens).parse()
+
+    if isinstance(tokens.first(), Star):
+        return '.*' + tokens.rest().to_regex()
+
     return tokens.to_regex()
 
 
 def bash_glob_to_zsh_glob(pattern):
-    '''Transform a bash glob to zsh glob.'''
+    '''Transform a bash glob to a zsh glob that matches the last part of a path.'''
 
     tokens = GlobLexer(pattern).parse()
     tokens = GlobParser(tokens).parse()
-    return tokens.to_zsh_glob()
+
+    if isinstance(tokens.first(), Star):
+        return '*' + tokens.rest().to_zsh_glob()
+
+    return '(|*/)' + tokens.to_zsh_glob()
 
 
 def test():
-- 
2.43.0


From 6de203c45e4daecaca24f17afda90071f07be123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:21 +0000
Subject: [PATCH 67/72] fix: offer directories besides the extensions of files
 in a relative directory (Zsh)

---
 crazy_complete/zsh_complete.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index d8e5310..03ee474 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -430,6 +430,10 @@ class ZshCompleter(shell.ShellCompleter):
         if directory.startswith('/'):
             return ZshComplFunc(ctxt, ['_files', '-W', directory, *args])
 
+        # Unlike _files, _path_files does not offer directories besides a pattern
+        if extensions:
+            args[1] += ' *(-/)'
+
         func = ctxt.helpers.use_function('path_files_relative')
         return ZshComplFunc(ctxt, [func, directory, *args], needs_braces=True)
 
-- 
2.43.0


From cd0d39a0beb9a249e493c92d62ea161931360bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 68/72] fix: quote words that begin with an equals sign (Zsh
 replaced =word by the path of a command)

---
 crazy_complete/shell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index ce59b07..8cb428e 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -35,6 +35,10 @@ def make_identifier(string):
 def needs_quote(string):
     '''Return if string needs quoting.'''
 
+    # Zsh replaces =word (also after a colon) with the path of that command
+    if string.startswith('=') or ':=' in string:
+        return True
+
     return not re.fullmatch('[a-zA-Z0-9_@%+=:,./-]+', string)
 
 
-- 
2.43.0


From e4fdc05df648b8cd779260e51ca31cc4ba8f3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 69/72] fix: keep the order of keys with nosort in Bash

---
 crazy_complete/bash_helpers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index 577a3c2..0e04300 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -319,9 +319,11 @@ local sep1="$1"; shift
 local sep2="$1"; shift
 local -A funcs=()
 local -A excludes=()
+local -a order=()
 local i
 
 for ((i=1; i <= $#; i += 3)); do
+  order+=("${@:i:1}")
   funcs["${@:i:1}"]="${@:i + 1:1}"
   excludes["${@:i:1}"]="${@:i + 2:1}"
 done
@@ -335,7 +337,7 @@ local cur="$cur" break_pos in_quotes
 dequote "$cur" cur break_pos in_quotes
 
 if [[ -z "$cur" ]]; then
-  COMPREPLY=("${!funcs[@]}")
+  COMPREPLY=("${order[@]}")
   return
 fi
 
@@ -350,7 +352,7 @@ for pair in "${having_pairs[@]}"; do
   having_keys+=("${tmp[@]}")
 done
 
-for key in "${!funcs[@]}"; do
+for key in "${order[@]}"; do
   found_key=0
 
   for having_key in "${having_keys[@]}"; do
@@ -405,9 +407,11 @@ fi
 _KEY_VALUE_PAIR = ShellFunction('key_value_pair', r'''
 local sep="$1"; shift
 local -A funcs=()
+local -a order=()
 local i
 
 for ((i=1; i <= $#; i += 2)); do
+  order+=("${@:i:1}")
   funcs["${@:i:1}"]="${@:i + 1:1}"
 done
 
@@ -423,8 +427,8 @@ local key="${cur%%"$sep"*}" value="${cur#*"$sep"}" cur_stripped="$cur"
 COMPREPLY=()
 
 if [[ "$cur" != *"$sep"* ]]; then
-  values "${!funcs[@]}"
-elif array_contains "$key" "${!funcs[@]}"; then
+  values "${order[@]}"
+elif array_contains "$key" "${order[@]}"; then
   cur="$value"
   ${funcs[$key]}
 
@@ -477,6 +481,7 @@ local sep2="$2"
 local func="$3"
 local -A excludes=()
 local -A takes_arg=()
+local -a order=()
 local key desc exclude non_repeatable_exclude
 
 while IFS=$'\t' read -r key desc exclude; do
@@ -498,6 +503,7 @@ while IFS=$'\t' read -r key desc exclude; do
 
   [[ -n "$key" ]] || continue
 
+  [[ -n "${takes_arg[$key]}" ]] || order+=("$key")
   takes_arg[$key]=$has_arg
   excludes[$key]="$exclude$non_repeatable_exclude"
 done < <($func)
@@ -511,7 +517,7 @@ local cur="$cur" break_pos in_quotes
 dequote "$cur" cur break_pos in_quotes
 
 if [[ -z "$cur" ]]; then
-  COMPREPLY=("${!excludes[@]}")
+  COMPREPLY=("${order[@]}")
   return
 fi
 
@@ -526,7 +532,7 @@ for pair in "${having_pairs[@]}"; do
   having_keys+=("${tmp[@]}")
 done
 
-for key in "${!excludes[@]}"; do
+for key in "${order[@]}"; do
   found_key=0
 
   for having_key in "${having_keys[@]}"; do
-- 
2.43.0


From a07ab8137aa7c21d1fbeb400a0ef6eb2fab1202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 70/72] fix: escape backslashes in the descriptions and
 messages of Zsh scripts

---
 crazy_complete/zsh_complete.py | 21 ++++++++++++---------
 crazy_complete/zsh_utils.py    | 12 ++++++------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index 03ee474..00144e6 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -8,7 +8,7 @@ from . import utils
 from .pattern import bash_glob_to_zsh_glob
 from .str_utils import join_with_wrap, indent
 from .zsh_utils import (
-    escape_colon, escape_square_brackets, escape_values_key,
+    escape_colon, escape_description, escape_values_key,
     make_file_extension_pattern
 )
 from .type_utils import is_dict_type
@@ -50,6 +50,10 @@ class ZshComplFunc(ZshCompletionBase):
         else:
             cmd = shell.join_quoted(self.args)
 
+        # A backslash before a colon cannot be expressed in an option spec
+        if '\\:' in cmd:
+            cmd = self.ctxt.helpers.add_dynamic_func(self.ctxt, cmd)
+
         if self.needs_braces:
             return shell.quote(f'{{{cmd}}}')
 
@@ -100,7 +104,7 @@ class ZshCompleteChoices(ZshCompletionBase):
 
         items = [str0(item) for item in self.choices.keys()]
         descriptions = [str0(value) for value in self.choices.values()]
-        colon = any(':' in s for s in items + descriptions)
+        special = any(c in s for s in items + descriptions for c in ':\\')
         quoted = []
 
         for item, desc in zip(items, descriptions):
@@ -110,7 +114,7 @@ class ZshCompleteChoices(ZshCompletionBase):
             quoted.append(val)
 
         action = shell.quote('((%s))' % ' '.join(quoted))
-        if not colon and len(action) <= CHOICES_INLINE_THRESHOLD:
+        if not special and len(action) <= CHOICES_INLINE_THRESHOLD:
             return action
 
         return self._dict_function()
@@ -122,7 +126,7 @@ class ZshCompleteChoices(ZshCompletionBase):
         for item, desc in self.choices.items():
             item = shell.quote(escape_colon(str(item)))
             if desc:
-                desc = shell.quote(str(desc))
+                desc = shell.quote(escape_colon(str(desc)))
                 code += f'  {item}:{desc}\n'
             else:
                 code += f'  {item}\n'
@@ -229,7 +233,7 @@ class ZshKeyValueList(ZshComplFunc):
         for definition in utils.get_key_value_list_definitions(values):
             desc = ''
             if definition.description:
-                desc = shell.quote('[%s]' % escape_square_brackets(definition.description))
+                desc = shell.quote('[%s]' % escape_description(definition.description))
 
             excludes = ''
             if definition.excludes:
@@ -282,7 +286,7 @@ class ZshKeyValuePair(ZshComplFunc):
 
         for key, desc, complete in values:
             if desc:
-                desc = shell.quote('[%s]' % escape_square_brackets(desc))
+                desc = shell.quote('[%s]' % escape_description(desc))
             else:
                 desc = ''
 
@@ -483,10 +487,9 @@ class ZshCompleter(shell.ShellCompleter):
         duplicates = opts.get('duplicates', False)
 
         if is_dict_type(values):
-            esc = escape_square_brackets
-            values = ['%s[%s]' % (esc(item), esc(desc)) for item, desc in values.items()]
+            values = ['%s[%s]' % (escape_values_key(item), escape_description(desc)) for item, desc in values.items()]
         else:
-            values = [escape_square_brackets(i) for i in values]
+            values = [escape_values_key(i) for i in values]
 
         if not duplicates:
             return ZshComplFunc(ctxt, ['_values', '-s', separator, desc] + values)
diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 61b550e..f2fbe89 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -15,15 +15,15 @@ from . import string_stream
 
 
 def escape_colon(s):
-    '''Escape colons in a string with backslash.'''
+    '''Escape colons (and backslashes) in a string with backslash.'''
 
-    return s.replace(':', '\\:')
+    return re.sub(r'[\\:]', r'\\\g<0>', s)
 
 
-def escape_square_brackets(s):
-    '''Escape square brackets with backslash.'''
+def escape_description(s):
+    '''Escape characters in a description that stands in square brackets.'''
 
-    return s.replace('[', '\\[').replace(']', '\\]')
+    return re.sub(r'[\\:\[\]]', r'\\\g<0>', s)
 
 
 def escape_colon_in_quoted_string(s):
@@ -143,7 +143,7 @@ def make_option_spec(
 
     # Description =============================================================
     if description is not None:
-        result.append(shell.quote('[%s]' % escape_colon(escape_square_brackets(description))))
+        result.append(shell.quote('[%s]' % escape_description(description)))
 
     # Complete ================================================================
     if complete:
-- 
2.43.0


From 0b403d0b7c1162b2410ab42ddbdabd24907fa596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 71/72] fix: metavars and help texts that begin with -, + or *
 broke completions in Zsh

---
 crazy_complete/zsh_complete.py | 12 ++++++------
 crazy_complete/zsh_utils.py    | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index 00144e6..8fb65e6 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -9,7 +9,7 @@ from .pattern import bash_glob_to_zsh_glob
 from .str_utils import join_with_wrap, indent
 from .zsh_utils import (
     escape_colon, escape_description, escape_values_key,
-    make_file_extension_pattern
+    make_file_extension_pattern, make_message
 )
 from .type_utils import is_dict_type
 
@@ -265,7 +265,7 @@ class ZshKeyValueList(ZshComplFunc):
         code += '_values -s %s -S %s %s "${a[@]}"' % (
             shell.quote(pair_separator),
             shell.quote(value_separator),
-            shell.quote(ctxt.option.metavar or ''),
+            shell.quote(make_message(ctxt.option.metavar or '')),
         )
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -310,7 +310,7 @@ class ZshKeyValuePair(ZshComplFunc):
         code += '%s\n' % '\n'.join(spec)
         code += '_values -S %s %s "${a[@]}"' % (
             shell.quote(value_separator),
-            shell.quote(ctxt.option.metavar or '')
+            shell.quote(make_message(ctxt.option.metavar or ''))
         )
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -369,7 +369,7 @@ class ZshCompleter(shell.ShellCompleter):
             if 'help' in options:
                 help_ = options['help']
 
-        return ZshComplFunc(ctxt, ['_numbers', *args, help_, *suffixes])
+        return ZshComplFunc(ctxt, ['_numbers', *args, make_message(help_), *suffixes])
 
     def float(self, ctxt, _trace, options=None):
         args = ['-f']
@@ -387,7 +387,7 @@ class ZshCompleter(shell.ShellCompleter):
             if 'help' in options:
                 help_ = options['help']
 
-        return ZshComplFunc(ctxt, ['_numbers', *args, help_, *suffixes])
+        return ZshComplFunc(ctxt, ['_numbers', *args, make_message(help_), *suffixes])
 
     def choices(self, ctxt, trace, choices):
         return ZshCompleteChoices(ctxt, trace, choices)
@@ -481,7 +481,7 @@ class ZshCompleter(shell.ShellCompleter):
         return ZshComplFunc(ctxt, [command], needs_braces=True)
 
     def value_list(self, ctxt, _trace, opts):
-        desc = ctxt.option.metavar or ''
+        desc = make_message(ctxt.option.metavar or '')
         values = opts['values']
         separator = opts.get('separator', ',')
         duplicates = opts.get('duplicates', False)
diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index f2fbe89..fdc7f25 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -65,6 +65,12 @@ def escape_values_key(s):
     return '\\' + s if s.startswith(('(', '*')) else s
 
 
+def make_message(s):
+    '''Make a message that functions such as `_values` or `_describe` don't take for an option.'''
+
+    return ' ' + s if s.startswith(('-', '+')) else s
+
+
 def make_option_spec(
         option_strings,
         conflicting_options = None,
@@ -150,8 +156,12 @@ def make_option_spec(
         if metavar is None:
             metavar = ' '
 
+        # A star at the beginning would introduce a pattern
+        if metavar.startswith('*'):
+            metavar = ' ' + metavar
+
         action = escape_colon_in_quoted_string(action)
-        result.append(':%s:%s' % (shell.quote(escape_colon(metavar)), action))
+        result.append(':%s:%s' % (shell.quote(escape_colon(make_message(metavar))), action))
 
     return ''.join(result)
 
@@ -174,7 +184,7 @@ def make_positional_spec(
     else:
         num_spec = str(number)
 
-    desc_spec = shell.quote(escape_colon(description))
+    desc_spec = shell.quote(escape_colon(make_message(description)))
 
     if action == '_normal':
         return f'{num_spec}::{desc_spec}:{action}'
-- 
2.43.0


From 76e5c62cebbd00e58d662e7aa9919c0da68c3259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:10 +0000
Subject: [PATCH 72/72] fix: nosort had no effect in Zsh for positionals of
 subcommands, repeatable positionals and aliases

---
 crazy_complete/zsh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index b4663e0..c88382b 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -291,6 +291,10 @@ def get_zstyles(commandline, out_list):
     '''Get zstyle commands for disabling sorting completion suggestions.'''
 
     prog = commandline.get_program_name()
+    aliases = commandline.get_parents(include_self=True)[0].aliases
+
+    if aliases:
+        prog = '(%s)' % '|'.join([prog] + aliases)
 
     for option in filter(lambda o: o.nosort, commandline.options):
         for option_string in option.option_strings:
@@ -298,7 +302,8 @@ def get_zstyles(commandline, out_list):
             out_list.append(r)
 
     for positional in filter(lambda p: p.nosort, commandline.positionals):
-        number = positional.number
+        # Subcommands are arguments as well
+        number = 'rest' if positional.repeatable else positional.get_positional_num()
         r = f"zstyle ':completion:*:*:{prog}:argument-{number}:*' sort false"
         out_list.append(r)
 
-- 
2.43.0

