From bb8d5ded5a4f6b2fe4f78f030976ca923ec0d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 01/50] fix: cmake-lint reports command line errors in its exit
 status

argparse exits with status 2 for a bad command line, but main() turned every
SystemExit into status 0.
---
 cmakelang/lint/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index a172290..3f5f2ca 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -183,8 +183,8 @@ def inner_main():
 def main():
   try:
     return inner_main()
-  except SystemExit:
-    return 0
+  except SystemExit as ex:
+    return ex.code
   except common.UserError as ex:
     logger.fatal(ex.msg)
     return 1
-- 
2.43.0


From fa98f7464d9d2e590b6e96413637696c8ff60cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 02/50] fix: command line options apply to every input file,
 not just the first

legacy_consume() removes the options it consumes, so each file after the
first was formatted without the command line options.
---
 cmakelang/format/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index bbcbf98..18e1b01 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -508,7 +508,7 @@ def onefile_main(infile_path, args, argparse_dict):
     config_dict = get_config(infile_path, args.config_files)
 
   cfg = configuration.Configuration(**config_dict)
-  cfg.legacy_consume(argparse_dict)
+  cfg.legacy_consume(dict(argparse_dict))
 
   if cfg.format.disable:
     return
-- 
2.43.0


From 62520588d3c84a420c3edf5f2e2b0ca4a9b26d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 03/50] fix: report ill-formed yaml and extensionless config
 files as user errors

yaml.YAMLError is not a ValueError, and try_get_configdict raised a
RuntimeError, so both ended in a traceback instead of a message.
---
 cmakelang/format/__main__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 18e1b01..72f8b52 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -214,7 +214,10 @@ def load_yaml(config_file):
     from yaml import CLoader as Loader
   except ImportError:
     from yaml import Loader
-  out = yaml.load(config_file, Loader=Loader)
+  try:
+    out = yaml.load(config_file, Loader=Loader)
+  except yaml.YAMLError as ex:
+    raise ValueError(str(ex))
   if out is None:
     return {}
   return out
@@ -253,8 +256,9 @@ def try_get_configdict(configfile_path):
   except:  # pylint: disable=bare-except
     pass
 
-  raise RuntimeError("Failed to parse {} as any of yaml, json, or python"
-                     .format(configfile_path))
+  raise common.UserError(
+      "Failed to parse {} as any of yaml, json, or python"
+      .format(configfile_path))
 
 
 def get_one_config_dict(configfile_path):
-- 
2.43.0


From 45b3fef1ce77ec895cbdea309b776ac04b9fa061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 04/50] fix: report unreadable and non-dictionary config files
 as user errors

---
 cmakelang/format/__main__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 72f8b52..2264eb3 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -313,7 +313,15 @@ def get_configdict(configfile_paths):
   while include_queue:
     configfile_path = include_queue.pop(0)
     configfile_path = os.path.expanduser(configfile_path)
-    increment_dict = get_one_config_dict(configfile_path)
+    try:
+      increment_dict = get_one_config_dict(configfile_path)
+    except (IOError, OSError) as ex:
+      raise common.UserError(
+          "Failed to read config file {}: {}".format(configfile_path, ex))
+    if not isinstance(increment_dict, Mapping):
+      raise common.UserError(
+          "Config file {} does not contain a dictionary of options"
+          .format(configfile_path))
 
     for include_path in increment_dict.pop("include", []):
       if not os.path.isabs(include_path):
-- 
2.43.0


From 162037fa8eef624d64e2ef547f4f46b646f1647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 05/50] fix: loading config files ends when they include each
 other

---
 cmakelang/format/__main__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 2264eb3..08b0f06 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -308,11 +308,16 @@ def get_one_config_dict(configfile_path):
 
 
 def get_configdict(configfile_paths):
-  include_queue = list(configfile_paths)
+  # Each entry is a path, and the chain of files through which it was included
+  include_queue = [(path, ()) for path in configfile_paths]
   config_dict = {}
   while include_queue:
-    configfile_path = include_queue.pop(0)
+    configfile_path, parents = include_queue.pop(0)
     configfile_path = os.path.expanduser(configfile_path)
+    realpath = os.path.realpath(configfile_path)
+    if realpath in parents:
+      # This file includes itself, and we have already loaded it
+      continue
     try:
       increment_dict = get_one_config_dict(configfile_path)
     except (IOError, OSError) as ex:
@@ -327,7 +332,7 @@ def get_configdict(configfile_paths):
       if not os.path.isabs(include_path):
         include_path = os.path.join(
             os.path.dirname(configfile_path), include_path)
-      include_queue.append(include_path)
+      include_queue.append((include_path, parents + (realpath,)))
     map_merge(config_dict, increment_dict)
   return config_dict
 
-- 
2.43.0


From 6a85eee86b2d81165b9d19eb0dba26cc7a37bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 06/50] fix: annotate parses with the user's configuration in
 effect

---
 cmakelang/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index c8f387f..2621371 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -53,7 +53,7 @@ def annotate_file(config, infile, outfile, outfmt=None):
   tokens = lex.tokenize(infile_content)
   parse_db = parse.funs.get_parse_db()
   parse_db.update(parse.funs.get_funtree(config.parse.fn_spec))
-  ctx = parse.ParseContext(parse_db)
+  ctx = parse.ParseContext(parse_db, config=config)
   parse_tree = parse.parse(tokens, ctx)
 
   if outfmt == "page":
-- 
2.43.0


From 77972c6873258eaf2f9fde2698b32204c02c6242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 07/50] fix: annotate reads the config file it is given

---
 cmakelang/annotate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index 2621371..c5c1fe2 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -83,7 +83,7 @@ USAGE_STRING = """
 cmake-annotate [-h]
              [--format {page,stub}]
              [-o OUTFILE_PATH]
-             [-c CONFIG_FILE]
+             [-c CONFIG_FILE [CONFIG_FILE ...]]
              infilepath [infilepath ...]
 """
 
@@ -102,8 +102,8 @@ def setup_argparser(arg_parser):
   arg_parser.add_argument('-o', '--outfile-path', default=None,
                           help='Where to write the formatted file. '
                                'Default is stdout.')
-  arg_parser.add_argument('-c', '--config-file',
-                          help='path to configuration file')
+  arg_parser.add_argument('-c', '--config-files', nargs='+',
+                          help='path to configuration file(s)')
   arg_parser.add_argument('infilepaths', nargs='*')
 
 
@@ -141,9 +141,9 @@ def main():
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-      config_dict = __main__.get_config(os.getcwd(), args.config_file)
+      config_dict = __main__.get_config(os.getcwd(), args.config_files)
     else:
-      config_dict = __main__.get_config(infile_path, args.config_file)
+      config_dict = __main__.get_config(infile_path, args.config_files)
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-- 
2.43.0


From 04ba8a0b265ce33835cf76ecb8ce48b762d1edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 08/50] fix: annotate keeps the line endings of its input

---
 cmakelang/annotate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index c5c1fe2..12d7a67 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -167,7 +167,8 @@ def main():
           os.dup(sys.stdin.fileno()),
           mode='r', encoding=cfg.encode.input_encoding, newline='')
     else:
-      infile = io.open(infile_path, 'r', encoding=cfg.encode.input_encoding)
+      infile = io.open(
+          infile_path, 'r', encoding=cfg.encode.input_encoding, newline='')
 
     try:
       with infile:
-- 
2.43.0


From 2d8273b209e448432756116d61b574f017184fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 09/50] fix: annotated html escapes the text of the listfile

---
 cmakelang/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/render.py b/cmakelang/render.py
index a7f77fe..b42319c 100644
--- a/cmakelang/render.py
+++ b/cmakelang/render.py
@@ -9,6 +9,7 @@ from __future__ import unicode_literals
 import io
 import logging
 import os
+from xml.sax import saxutils
 
 from cmakelang import lex
 from cmakelang.parse.common import TreeNode
@@ -27,7 +28,7 @@ def dump_html(node, outfile):
     outfile.write('</span>')
   elif isinstance(node, lex.Token):
     outfile.write('<span class="cmf-{}">'.format(node.type.name))
-    outfile.write(node.spelling)
+    outfile.write(saxutils.escape(node.spelling))
     outfile.write('</span>')
 
 
-- 
2.43.0


From d01eba2609bc358b9b913f5362093b850a62620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 10/50] fix: lint can detect line endings

---
 cmakelang/lint/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 3f5f2ca..6e1092f 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -32,7 +32,7 @@ def process_file(config, local_ctx, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   checker = basic_checker.LintChecker(config, local_ctx)
   checker.check_basics(infile_content)
-- 
2.43.0


From 93e8682aaecb64cc77dc0a46ea2870672de21a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 11/50] fix: genparsers can detect line endings

---
 cmakelang/genparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 410f541..6a68aca 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -188,7 +188,7 @@ def process_file(config, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   tokens = lex.tokenize(infile_content)
   parse_db = parse.funs.get_parse_db()
-- 
2.43.0


From 9fee84a1cacaf55f507d97a550867fefd0624410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 12/50] fix: genparsers skips and reports files which it cannot
 read

---
 cmakelang/genparsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 6a68aca..d02f515 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -257,6 +257,7 @@ def main():
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
+      continue
 
     try:
       with infile:
@@ -264,6 +265,8 @@ def main():
     except UnicodeDecodeError:
       logger.error(
           "Unable to read %s as %s", infile_path, cfg.encode.input_encoding)
+      returncode = 1
+      continue
 
     try:
       parse_tree = process_file(cfg, intext)
-- 
2.43.0


From de2875594ad7ec0a6735e545ebd0e347f910766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 13/50] fix: lint can read from stdin

---
 cmakelang/lint/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 6e1092f..9c69002 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -144,12 +144,13 @@ def inner_main():
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
+    infile_arg = infile_path
     if infile_path == '-':
-      infile_path = os.dup(sys.stdin.fileno())
+      infile_arg = os.dup(sys.stdin.fileno())
 
     try:
       infile = io.open(
-          infile_path, mode='r', encoding=cfg.encode.input_encoding, newline='')
+          infile_arg, mode='r', encoding=cfg.encode.input_encoding, newline='')
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
-- 
2.43.0


From bbbd9718315864cf50237051d13a4da2c4f0c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 14/50] fix: analyze_naming parses with the configured command
 database

---
 cmakelang/lint/tools/analyze_naming.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/lint/tools/analyze_naming.py b/cmakelang/lint/tools/analyze_naming.py
index a048caa..e0e06be 100644
--- a/cmakelang/lint/tools/analyze_naming.py
+++ b/cmakelang/lint/tools/analyze_naming.py
@@ -133,6 +133,7 @@ def inner_main():
 
     tokens = lex.tokenize(infile_content)
     parse_db = parse.funs.get_parse_db()
+    parse_db.update(parse.funs.get_funtree(cfg.parse.fn_spec))
     ctx = parse.ParseContext(parse_db, config=cfg)
     parse_tree = parse.parse(tokens, ctx)
     parse_tree.build_ancestry()
-- 
2.43.0


From ee8a7c0b733af19404dfd2d56edfd7d95f94b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 15/50] fix: the token dump reads listfiles as utf-8 with exact
 newlines

---
 cmakelang/lex/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lex/__main__.py b/cmakelang/lex/__main__.py
index c2c15fe..17abe68 100644
--- a/cmakelang/lex/__main__.py
+++ b/cmakelang/lex/__main__.py
@@ -1,5 +1,7 @@
 from __future__ import print_function
 
+import io
+
 from cmakelang import lex
 
 
@@ -11,7 +13,7 @@ def main():
   parser = argparse.ArgumentParser(description=__doc__)
   parser.add_argument('infile')
   args = parser.parse_args()
-  with open(args.infile, 'r') as infile:
+  with io.open(args.infile, 'r', encoding='utf-8', newline='') as infile:
     tokens = lex.tokenize(infile.read())
   print('\n'.join(str(x) for x in tokens))
 
-- 
2.43.0


From 7eacee96d0d8531c1832e8b4060a8ce5d3388187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 16/50] fix: the built-in enable_language is not replaced by
 the one of a module

---
 cmakelang/parse/funs/standard_modules.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmakelang/parse/funs/standard_modules.py b/cmakelang/parse/funs/standard_modules.py
index afa38a1..59cae06 100644
--- a/cmakelang/parse/funs/standard_modules.py
+++ b/cmakelang/parse/funs/standard_modules.py
@@ -983,11 +983,6 @@ FUNSPECS = {
       "nargs": 0
     }
   },
-  "enable_language": {
-    "pargs": {
-      "nargs": 0
-    }
-  },
   "export_jars": {
     "kwargs": {
       "FILE": 1,
-- 
2.43.0


From 07561c596218bd5b7ad5e4ac4764b3556f2afa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 17/50] fix: lint names the reference which lacks its closing
 tag

---
 cmakelang/lint/basic_checker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index f4dd779..121178c 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -292,6 +292,7 @@ class LintChecker(object):
 
       match = missing_suffix.search(resolved)
       if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
+        catmatch = "".join(match.group(1, 2))
         local_ctx.record_lint(
             "W0106", "closing", catmatch, location=token.get_location())
         continue
-- 
2.43.0


From 4ac24bace7e05201a487589aa6d47cb4e6dc23e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 18/50] fix: lint reports unexpected arguments of
 add_custom_target

---
 cmakelang/parse/funs/add_xxx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 59dc699..20dcd1e 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -249,7 +249,7 @@ def parse_add_custom_target(ctx, tokens, breakstack):
       tree.children.append(subtree)
       continue
 
-    ctx.lint_ctx.record_lint("E1122", location=tokens[0].get_location())
+    ctx.lint_ctx.record_lint("E1121", location=tokens[0].get_location())
     # logger.warning(
     #     "Unexpected positional argument %s at %s",
     #     tokens[0].spelling, tokens[0].location())
-- 
2.43.0


From 3fc79aea5ed5cff84792dda7821ae8c0b4a994a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 19/50] fix: build_command and cmake_parse_arguments recognize
 their keywords

---
 cmakelang/parse/funs/miscellaneous.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 2ab3e56..a32e66c 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -30,9 +30,9 @@ def parse_build_command(ctx, tokens, breakstack):
   }
 
   second_token = get_nth_semantic_token(tokens, 1)
-  if second_token is not None and second_token.spelling.upper not in kwargs:
+  if second_token is not None and second_token.spelling.upper() not in kwargs:
     ctx.lint_ctx.record_lint(
-        "W0106", "build_command(<cachevariable> <makecommand>)",
+        "W0104", "build_command(<cachevariable> <makecommand>)",
         location=tokens[0].get_location())
     return StandardArgTree.parse(ctx, tokens, "2", {}, [], breakstack)
 
@@ -53,7 +53,7 @@ def parse_cmake_parse_arguments(ctx, tokens, breakstack):
   """
 
   first_token = get_nth_semantic_token(tokens, 0)
-  if first_token is not None and first_token.spelling.upper == "PARSE_ARGV":
+  if first_token is not None and first_token.spelling.upper() == "PARSE_ARGV":
     return StandardArgTree.parse(
         ctx, tokens, "6", {}, ["PARSE_ARGV"], breakstack)
   return StandardArgTree.parse(
-- 
2.43.0


From de75b3553a8c406817da102f7b3dcb0df3038808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 20/50] fix: ctest-to parses test files again

---
 cmakelang/ctest_to.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 9d93661..ea897b1 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -17,6 +17,7 @@ from xml.etree import ElementTree as ET
 from cmakelang.format import __main__
 from cmakelang import lex
 from cmakelang import parse
+from cmakelang.parse.common import NodeType, TreeNode
 
 
 logger = logging.getLogger(__name__)
@@ -99,7 +100,7 @@ class ParseContext(object):
     self.tests = {}
 
   # pylint: disable=W0613
-  def parse_add_test(self, tokens, _breakstack):
+  def parse_add_test(self, _ctx, tokens, _breakstack):
     """Parse an add_test() statement. This statement contains the test name
        and the command for the test.
     """
@@ -123,8 +124,9 @@ class ParseContext(object):
 
     logger.debug("Adding test %s", test_name)
     self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
+    return TreeNode(NodeType.ARGGROUP)
 
-  def parse_set_tests_properties(self, tokens, _breakstack):
+  def parse_set_tests_properties(self, _ctx, tokens, _breakstack):
     """Parse a set_tests_properties() statement. This statement can set
        properties (key/value strings) on one or more tests.
     """
@@ -168,8 +170,9 @@ class ParseContext(object):
     for test_name in test_names:
       logger.debug("Updating properties for %s", test_name)
       self.tests[test_name].props.update(properties)
+    return TreeNode(NodeType.ARGGROUP)
 
-  def parse_subdirs(self, tokens, _breakstack):
+  def parse_subdirs(self, _ctx, tokens, _breakstack):
     """Parse a subdirs() statement. This statement is actually deprecated in
        cmake but it appears it is still in use by ctest.
     """
@@ -182,6 +185,7 @@ class ParseContext(object):
       fullpath = os.path.join(self.cwd, spelling)
       logger.debug("pushing directory %s", fullpath)
       self.dirqueue.append(fullpath)
+    return TreeNode(NodeType.ARGGROUP)
 
   def get_db(self):
     """Return the parse database: dictionary of statement names to parse
@@ -203,7 +207,7 @@ class ParseContext(object):
     with io.open(filepath, "r", encoding="utf-8") as infile:
       infile_content = infile.read()
     tokens = lex.tokenize(infile_content)
-    _ = parse.parse(tokens, self.get_db())
+    _ = parse.parse(tokens, parse.ParseContext(self.get_db()))
 
   def start(self, firstdir):
     """Main entry-point into the parse. Pushes the first directory onto the
-- 
2.43.0


From af89d09980c15b17a5e6ce00bc6539d57a8b9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 21/50] fix: lint pragmas of nested scopes take effect within
 other pragmas

---
 cmakelang/lint/lint_util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/lint_util.py b/cmakelang/lint/lint_util.py
index cca7224..74baeba 100644
--- a/cmakelang/lint/lint_util.py
+++ b/cmakelang/lint/lint_util.py
@@ -101,8 +101,10 @@ class FileContext(object):
     # Remove any lint records that were suppressed at the line number where
     # they were recorded
     out = []
-    events = list(self._suppression_events)
-    active_suppressions = set()
+    # NOTE: an enclosing scope adds all of its events before any scope nested
+    # within it does, and nested scopes may suppress the same lint again
+    events = sorted(self._suppression_events, key=lambda event: event.lineno)
+    active_suppressions = collections.defaultdict(int)
 
     for record in records:
       if record.location:
@@ -110,13 +112,13 @@ class FileContext(object):
           event = events.pop(0)
           if event.mode == "add":
             for idstr in event.suppressions:
-              active_suppressions.add(idstr)
+              active_suppressions[idstr] += 1
           elif event.mode == "remove":
             for idstr in event.suppressions:
-              active_suppressions.discard(idstr)
+              active_suppressions[idstr] -= 1
           else:
             raise ValueError("Illegal suppression event {}".format(event.mode))
-      if record.spec.idstr in active_suppressions:
+      if active_suppressions[record.spec.idstr] > 0:
         continue
       out.append(record)
 
-- 
2.43.0


From ab5eab09a601cc689a9986eb8211d29e7b0ff0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 22/50] fix: lint pragmas cover the last line of their scope

---
 cmakelang/lint/basic_checker.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 121178c..5a7d547 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -544,8 +544,14 @@ class LintChecker(object):
       prevchild[1] = prevchild[0]
       prevchild[0] = child
 
-    lineno = node.get_tokens()[-1].get_location().line
     if suppressions:
+      # The scope includes all of its last line, unless that line merely
+      # indents the statement which closes the scope
+      last_token = node.get_tokens()[-1]
+      lineno = (last_token.get_location().line +
+                last_token.spelling.count("\n"))
+      if node.parent is None or last_token.spelling.strip():
+        lineno += 1
       local_ctx.unsuppress(lineno, suppressions)
 
   def check_arggroup(self, node):
-- 
2.43.0


From d89017a1b6ca57930d48551a26190813e764d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 23/50] fix: lint pragmas on later lines of a comment take
 effect in statements

---
 cmakelang/lint/basic_checker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 5a7d547..035b99a 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -744,9 +744,11 @@ class LintChecker(object):
       return
 
     (_cfg, local_ctx) = self.context
-    lineno = node.get_tokens()[0].get_location().line
-    new_suppressions = local_ctx.suppress(lineno, requested_suppressions)
-    local_ctx.unsuppress(lineno + 1, new_suppressions)
+    tokens = node.get_tokens()
+    first_lineno = tokens[0].get_location().line
+    last_lineno = tokens[-1].get_location().line
+    new_suppressions = local_ctx.suppress(first_lineno, requested_suppressions)
+    local_ctx.unsuppress(last_lineno + 1, new_suppressions)
 
   def am_in_statement(self):
     for node in self._node_stack:
-- 
2.43.0


From 4de8035cb4988a5e74b6b48e813a60ed6e5f17db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 24/50] fix: lint counts a file given twice the way it reports
 it

---
 cmakelang/lint/lint_util.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/lint_util.py b/cmakelang/lint/lint_util.py
index 74baeba..cb46d43 100644
--- a/cmakelang/lint/lint_util.py
+++ b/cmakelang/lint/lint_util.py
@@ -143,18 +143,19 @@ class GlobalContext(object):
   def __init__(self, outfile):
     self.outfile = outfile
     self.lintdb = lintdb.get_database()
-    self.file_ctxs = {}
+    self.file_ctxs = []
 
   def get_file_ctx(self, infile_path, config):
-    if infile_path not in self.file_ctxs:
-      self.file_ctxs[infile_path] = FileContext(self, infile_path)
-    ctx = self.file_ctxs[infile_path]
+    # NOTE: the same file may be given more than once. Each time it is checked
+    # and reported on its own.
+    ctx = FileContext(self, infile_path)
     ctx.config = config
+    self.file_ctxs.append(ctx)
     return ctx
 
   def get_category_counts(self):
     lint_counts = {}
-    for _, file_ctx in sorted(self.file_ctxs.items()):
+    for file_ctx in self.file_ctxs:
       for record in file_ctx.get_lint():
         category_char = record.spec.idstr[0]
         if category_char not in lint_counts:
-- 
2.43.0


From 8fda51abd06ff9c17a6a2050bd7f8f129ad7acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 25/50] fix: a dumped config keeps the per-command settings of
 every command

---
 cmakelang/format/__main__.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 08b0f06..6fba6ea 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -39,7 +39,6 @@ from cmakelang import parse
 from cmakelang.parse.argument_nodes import StandardParser2
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.printer import dump_tree as dump_parse
-from cmakelang.parse.funs import standard_funs
 
 
 logger = logging.getLogger(__name__)
@@ -398,9 +397,6 @@ def dump_config(args, config_dict, outfile):
   outfmt = args.dump_config
   config_dict.update(get_argdict(args))
   cfg = configuration.Configuration(**config_dict)
-  # Don't dump default per-command configs
-  for key in standard_funs.get_default_config():
-    cfg.misc.per_command.pop(key, None)
 
   if outfmt == 'yaml':
     import yaml
-- 
2.43.0


From 7eae20947e91f0a03d0f8a7d622d89a146660c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 26/50] fix: enable_sort = False turns off sorting of arguments

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 06a345b..5a4e0cc 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1218,7 +1218,7 @@ class PargGroupNode(LayoutNode):
     return self.children[-1].has_terminal_comment()
 
   def lock(self, config, stmt_depth=0):
-    if (config.format.autosort and
+    if (config.format.enable_sort and config.format.autosort and
         isinstance(self.pnode, PositionalGroupNode) and
         self.pnode.sortable):
       self._children = sort_arguments(self._children)
-- 
2.43.0


From 4535188f0d533b1c1ede669bdc2e081801acf66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 27/50] fix: tuple arguments keep comments and pragmas in place

A format-off/on pragma was looked for one token late, so an argument followed
by one was dropped from the tree, and comments inside an incomplete tuple were
stored behind the arguments that follow them.
---
 cmakelang/parse/additional_nodes.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index d843353..bce465b 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -38,7 +38,6 @@ class TupleGroupNode(ArgGroupNode):
     tree = cls()
     tree.spec = PositionalSpec(ntup, flags=flags, legacy=True)
     subtree = None
-    active_depth = tree
 
     npargs_consumed = 0
     ntup_consumed = 0
@@ -54,6 +53,16 @@ class TupleGroupNode(ArgGroupNode):
       if should_break(tokens[0], breakstack):
         break
 
+      # While a tuple is incomplete, anything which isn't an argument goes into
+      # the group of that tuple
+      active_depth = tree if subtree is None else subtree
+
+      # If it's a sentinel comment, then add it at the current depth
+      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
+                            lex.TokenType.FORMAT_ON):
+        active_depth.children.append(OnOffNode.consume(ctx, tokens))
+        continue
+
       # Otherwise we will consume the token
       token = tokens.pop(0)
 
@@ -68,16 +77,10 @@ class TupleGroupNode(ArgGroupNode):
       if token.type in (lex.TokenType.COMMENT,
                         lex.TokenType.BRACKET_COMMENT):
         child = CommentNode()
-        tree.children.append(child)
+        active_depth.children.append(child)
         child.children.append(token)
         continue
 
-      # If it's a sentinel comment, then add it at the current depth
-      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
-                            lex.TokenType.FORMAT_ON):
-        tree.children.append(OnOffNode.consume(ctx, tokens))
-        continue
-
       if subtree is None:
         subtree = PositionalGroupNode()
         subtree.spec = PositionalSpec(2, False, [], flags)
-- 
2.43.0


From 365df5b3efa63f505965427f15f8fd7c89f54bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 28/50] fix: format pragmas in add_library and add_executable
 are not arguments

---
 cmakelang/parse/funs/add_executable.py | 8 +++++++-
 cmakelang/parse/funs/add_library.py    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 3a59c63..e8dc523 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -4,9 +4,10 @@ from cmakelang import lex
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 
 from cmakelang.parse.util import (
+    ONOFF_TOKENS,
     WHITESPACE_TOKENS,
     get_tag,
     get_normalized_kwarg,
@@ -104,6 +105,11 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in ONOFF_TOKENS:
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index bff1df7..39672e9 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -4,8 +4,9 @@ from cmakelang.lex import TokenType
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 from cmakelang.parse.util import (
+    ONOFF_TOKENS,
     WHITESPACE_TOKENS,
     get_tag,
     get_normalized_kwarg,
@@ -78,6 +79,11 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in ONOFF_TOKENS:
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
-- 
2.43.0


From a479188f70eb1ff5abc57ebcaa03f4ccea7585aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 29/50] fix: truncated add_library, add_executable, foreach and
 install are diagnosed

add_library(name) as the last command of a file and commands cut off after
their opening parenthesis ended in an IndexError or AttributeError.
---
 cmakelang/parse/funs/add_executable.py |  6 ++++--
 cmakelang/parse/funs/add_library.py    | 10 +++++++---
 cmakelang/parse/funs/foreach.py        |  6 ++++--
 cmakelang/parse/funs/install.py        |  5 ++++-
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index e8dc523..36f8e7f 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -169,8 +169,10 @@ def parse_add_executable(ctx, tokens, breakstack):
 
   if second_token is None:
     # All add_library() commands should have at least two arguments
-    logger.warning("Invalid add_executable() command at %s",
-                   tokens[0].get_location())
+    location = ()
+    if tokens:
+      location = tokens[0].get_location()
+    logger.warning("Invalid add_executable() command at %s", location)
     return StandardArgTree.parse(ctx, tokens, npargs='*', kwargs={}, flags=[],
                                  breakstack=breakstack)
 
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index 39672e9..6bdf44b 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -244,8 +244,10 @@ def parse_add_library(ctx, tokens, breakstack):
 
   if second_token is None:
     # All add_library() commands should have at least two arguments
-    logger.warning("Invalid add_library() command at %s",
-                   tokens[0].get_location())
+    location = ()
+    if tokens:
+      location = tokens[0].get_location()
+    logger.warning("Invalid add_library() command at %s", location)
     return StandardArgTree.parse(ctx, tokens, npargs='*', kwargs={}, flags=[],
                                  breakstack=breakstack)
 
@@ -270,7 +272,9 @@ def parse_add_library(ctx, tokens, breakstack):
   # sortability unless it is a word that doesn't match any of the descriminator
   # flags
   sortable = True
-  if "${" in second_token.spelling or "${" in third_token.spelling:
+  if "${" in second_token.spelling:
+    sortable = False
+  elif third_token is not None and "${" in third_token.spelling:
     sortable = False
   return parse_add_library_standard(ctx, tokens, breakstack, sortable)
 
diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index 17bf40f..99ab982 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -155,8 +155,10 @@ def parse_foreach(ctx, tokens, breakstack):
 
   if second_token is None:
     # All foreach() statements should have at least two arguments
-    logger.warning("Invalid foreach() statement at %s",
-                   tokens[0].get_location())
+    location = ()
+    if tokens:
+      location = tokens[0].get_location()
+    logger.warning("Invalid foreach() statement at %s", location)
     return StandardArgTree.parse(
         ctx, tokens, npargs='*', kwargs={}, flags=[], breakstack=breakstack)
 
diff --git a/cmakelang/parse/funs/install.py b/cmakelang/parse/funs/install.py
index b91bb73..f8ffe07 100644
--- a/cmakelang/parse/funs/install.py
+++ b/cmakelang/parse/funs/install.py
@@ -298,7 +298,10 @@ def parse_install(ctx, tokens, breakstack):
 
   descriminator_token = get_first_semantic_token(tokens)
   if descriminator_token is None:
-    logger.warning("Invalid install() command at %s", tokens[0].get_location())
+    location = ()
+    if tokens:
+      location = tokens[0].get_location()
+    logger.warning("Invalid install() command at %s", location)
     return StandardArgTree.parse(ctx, tokens, npargs='*', kwargs={}, flags=[],
                                  breakstack=breakstack)
 
-- 
2.43.0


From 5934edfe91e7b9a1acc80e329d9587d5d3325c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 30/50] fix: truncated or misplaced statements are reported as
 user errors

A statement name at the end of the file, a missing parenthesis or a block that
is never closed ended in an IndexError, ValueError or internal error.
---
 cmakelang/parse/argument_nodes.py | 9 +++++++--
 cmakelang/parse/body_nodes.py     | 8 ++++++--
 cmakelang/parse/statement_node.py | 7 ++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 7974758..257ce53 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 import logging
 
 from cmakelang import lex
-from cmakelang.common import InternalError
+from cmakelang.common import InternalError, UserError
 from cmakelang.parse.printer import dump_tree_tostr
 from cmakelang.parse.util import (
     comment_belongs_up_tree,
@@ -489,8 +489,13 @@ class ParenGroupNode(TreeNode):
       subtree = ConditionalGroupNode.parse(ctx, tokens, [ParenBreaker()])
     tree.children.append(subtree)
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of token stream while parsing group:\n {}"
+          .format(dump_tree_tostr([tree])))
+
     if tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      raise ValueError(
+      raise UserError(
           "Unexpected {} token at {}, expecting r-paren, got {}"
           .format(tokens[0].type.name, tokens[0].get_location(),
                   tokens[0].content))
diff --git a/cmakelang/parse/body_nodes.py b/cmakelang/parse/body_nodes.py
index 4b7cef5..704a09a 100644
--- a/cmakelang/parse/body_nodes.py
+++ b/cmakelang/parse/body_nodes.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 import collections
 import logging
 
-from cmakelang.common import InternalError
+from cmakelang.common import UserError
 from cmakelang import lex
 from cmakelang.parse.util import (
     COMMENT_TOKENS, ONOFF_TOKENS, WHITESPACE_TOKENS
@@ -72,7 +72,7 @@ class BodyNode(TreeNode):
       elif token.type == lex.TokenType.BYTEORDER_MARK:
         tokens.pop(0)
       else:
-        raise InternalError(
+        raise UserError(
             "Unexpected {} token at {}:{}"
             .format(tokens[0].type.name,
                     tokens[0].begin.line, tokens[0].begin.col))
@@ -120,6 +120,10 @@ class FlowControlNode(TreeNode):
     node.children.append(open_stmt)
     body = BodyNode.consume(ctx, tokens, (endflow,))
     node.children.append(body)
+    if not tokens:
+      raise UserError(
+          "Unexpected end of file, expecting {}() for {}() at {}"
+          .format(endflow.lower(), flowtype.name.lower(), node.get_location()))
     close_stmt = StatementNode.consume(ctx, tokens)
     node.children.append(close_stmt)
 
diff --git a/cmakelang/parse/statement_node.py b/cmakelang/parse/statement_node.py
index 256e33f..1006ff4 100644
--- a/cmakelang/parse/statement_node.py
+++ b/cmakelang/parse/statement_node.py
@@ -61,8 +61,13 @@ class StatementNode(TreeNode):
 
     # TODO(josh): should the parens belong to the statement node or the
     # group node?
+    if not tokens:
+      raise UserError(
+          "Unexpected end of token stream while parsing statement:\n {}"
+          .format(tree_string([node])))
+
     if tokens[0].type != lex.TokenType.LEFT_PAREN:
-      raise ValueError(
+      raise UserError(
           "Unexpected {} token at {}, expecting l-paren, got {}"
           .format(tokens[0].type.name, tokens[0].get_location(),
                   repr(tokens[0].content)))
-- 
2.43.0


From 6c1d52495afd3bcdb3722537557515ca32d1d8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 31/50] fix: set() cut off after CACHE is diagnosed

---
 cmakelang/parse/funs/set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index c877bbe..a72ed2b 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -91,12 +91,15 @@ def parse_set(ctx, tokens, breakstack):
       for idx, token in enumerate(cache_tokens[:2]):
         cache_args[idx] = token.spelling
 
+      location = ()
+      if tokens:
+        location = tokens[0].get_location()
       if not cache_tokens:
         ctx.lint_ctx.record_lint(
-            "E1120", "<variable>", location=tokens[0].get_location())
+            "E1120", "<variable>", location=location)
       elif len(cache_tokens) < 2:
         ctx.lint_ctx.record_lint(
-            "E1120", "<value>", location=tokens[0].get_location())
+            "E1120", "<value>", location=location)
       elif len(cache_tokens) < 3:
         pass
       elif len(cache_tokens) > 4:
-- 
2.43.0


From e3792ced01d1fc05a1693a086faa96867f50d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 32/50] fix: a keyword directly after a parenthesis no longer
 hangs the parser

In 'if((A)AND (B))' the token AND ended the argument group because of its
spelling but was not accepted as a keyword, so nothing ever consumed it.
---
 cmakelang/parse/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmakelang/parse/common.py b/cmakelang/parse/common.py
index bbb9315..83d4844 100644
--- a/cmakelang/parse/common.py
+++ b/cmakelang/parse/common.py
@@ -8,6 +8,7 @@ import logging
 from cmakelang import common
 from cmakelang import lex
 from cmakelang.parse.util import (
+    get_normalized_kwarg,
     is_semantic_token, is_syntactic_token, is_whitespace_token, is_comment_token
 )
 
@@ -146,6 +147,10 @@ class KwargBreaker(object):
     self.kwargs = [kwarg.upper() for kwarg in kwargs]
 
   def __call__(self, token):
+    # A token which no parser would accept as a keyword must not end
+    # the current group, or else no one consumes it
+    if get_normalized_kwarg(token) is None:
+      return False
     return token.spelling.upper() in self.kwargs
 
   def __repr__(self):
-- 
2.43.0


From ec6fd660077b73475721d410b70784f6220bef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 33/50] fix: a missing positional argument is not an internal
 error

source_group() and other commands without their fixed number of arguments
stopped the formatter with 'parsed an empty subtree'.
---
 cmakelang/parse/argument_nodes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 257ce53..66b34e9 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -149,10 +149,11 @@ class StandardArgTree(ArgGroupNode):
         # ```install(RUNTIME COMPONENT runtime)``. In this case the second
         # occurance of "runtime" should not match the ``RUNTIME`` keyword
         # and should not break the positional parser.
-        # TODO(josh): this is kind of hacky because it will force the positional
-        # parser to consume a right parenthesis and will lead to parse errors
-        # in the event of a missing positional argument. Such errors will be
-        # difficult to debug for the user.
+        # A right parenthesis is never an argument, even if some are
+        # missing.
+        if tokens[0].type == lex.TokenType.RIGHT_PAREN:
+          break
+
         if pargspecs:
           pspec = pargspecs[0]
         else:
-- 
2.43.0


From 8771f1683aef8592787a8d461394bb9ffb637231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 34/50] fix: an escape sequence does not split an unquoted
 argument

CMake accepts a backslash followed by any character but a line break. The
lexer knew a few of them only, so that a\.b was formatted as two arguments.
---
 cmakelang/lex/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index f7ddcb9..751d5c8 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -113,7 +113,7 @@ def tokenize(contents):
           # Escape sequences
           # https://cmake.org/cmake/help/v3.0/manual/
           #   cmake-language.7.html#grammar-token-escape_sequence
-          r'(\\[\(\)#" \\\$@^trn;])'
+          r'(\\[^\r\n])'
       ])
   )
 
@@ -126,7 +126,7 @@ def tokenize(contents):
           # Escape sequences
           # https://cmake.org/cmake/help/v3.0/manual/
           #   cmake-language.7.html#grammar-token-escape_sequence
-          r'(\\[\(\)#" \\\$@^trn;])'
+          r'(\\[^\r\n])'
       ])
   )
 
-- 
2.43.0


From c51349704445163cba89a3496f1cec7ed53e2265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 35/50] fix: brackets, backslash and caret are no letters

The character range A-z includes them, so that an escaped space, quote or
parenthesis at the start of an argument was taken for a word.
---
 cmakelang/lex/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 751d5c8..5a77c01 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -147,14 +147,14 @@ def tokenize(contents):
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-z_][a-zA-Z0-9_]*(?![^\s\)\(])",
+      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])@[a-zA-z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
+      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
        lambda s, t: (TokenType.ATWORD, t)),
       # A variable dereference ${<word>}
-      (r"(?<![^\s\(])\${[a-zA-z_][a-zA-Z0-9_]*}(?![^\s\)])",
+      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)])",
        lambda s, t: (TokenType.DEREF, t)),
       # unquoted_legacy
       (legacy_pattern,
-- 
2.43.0


From f037b38d69bfbe648bb55faf88ee39ea6c17ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 36/50] fix: non-ascii white space does not separate arguments

CMake knows no such thing: the characters are part of unquoted arguments.
---
 cmakelang/lex/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 5a77c01..c0243be 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -183,7 +183,7 @@ def tokenize(contents):
       # Catch-all for literals which are compound statements.
       (r"([^\s\(\)]+|[^\s\(]*[^\)]|[^\(][^\s\)]*)",
        lambda s, t: (TokenType.UNQUOTED_LITERAL, t)),
-  ], re.DOTALL)
+  ], re.DOTALL | getattr(re, "ASCII", 0))
 
   tokens_return = []
   if contents.startswith("\ufeff"):
-- 
2.43.0


From a5d503a17ba312964d6f1d25f75310b27cba96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 37/50] fix: a bracket argument ends at its first closing
 bracket

If a comment followed it directly it went on to the next closing bracket.
---
 cmakelang/lex/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index c0243be..275cacf 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -142,7 +142,7 @@ def tokenize(contents):
       (r"(?<![^\s\(])'[^'\\]*(?:\\.[^'\\]*)*'(?![^\s\)])",
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # bracket argument
-      (r"(?<![^\s\(])\[(=*)\[.*?\]\1\](?![^\s\)])",
+      (r"(?<![^\s\(])\[(=*)\[.*?\]\1\]",
        lambda s, t: (TokenType.BRACKET_ARGUMENT, t)),
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
-- 
2.43.0


From 88153b2988e1d3fa49828251d31be36f4d51b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 38/50] fix: a format pragma is on the line of its comment

An empty comment swallowed the next line if that started with cmake-format.
---
 cmakelang/lex/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 275cacf..ae11af8 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -172,9 +172,9 @@ def tokenize(contents):
       # NOTE(josh): don't match '\s' here or we'll miss some newline tokens
       # TODO(josh): should we match unicode whitespace too?
       (r"[ \t\f\v]+", lambda s, t: (TokenType.WHITESPACE, t)),
-      (r"#\s*(cmake-format|cmf): off[^\n]*",
+      (r"#[^\S\n]*(cmake-format|cmf): off[^\n]*",
        lambda s, t: (TokenType.FORMAT_OFF, t)),
-      (r"#\s*(cmake-format|cmf): on[^\n]*",
+      (r"#[^\S\n]*(cmake-format|cmf): on[^\n]*",
        lambda s, t: (TokenType.FORMAT_ON, t)),
       # bracket comment
       (r"#\[(=*)\[.*?\]\1\]", lambda s, t: (TokenType.BRACKET_COMMENT, t)),
-- 
2.43.0


From 4a21cdc746d69d11e40d940fd9fef1ee6516eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 39/50] fix: a comment directly after an argument does not
 change its kind

Quoted arguments, numbers, references and keywords were taken for plain
unquoted arguments.
---
 cmakelang/lex/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index ae11af8..41c18e5 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -136,7 +136,7 @@ def tokenize(contents):
       # double quoted string
       # NOTE(josh): regex borrowed from
       # https://stackoverflow.com/a/37379449/141023
-      (r'(?<![^\s\(])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\)])',
+      (r'(?<![^\s\(])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\)#])',
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # single quoted string
       (r"(?<![^\s\(])'[^'\\]*(?:\\.[^'\\]*)*'(?![^\s\)])",
@@ -144,17 +144,17 @@ def tokenize(contents):
       # bracket argument
       (r"(?<![^\s\(])\[(=*)\[.*?\]\1\]",
        lambda s, t: (TokenType.BRACKET_ARGUMENT, t)),
-      (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
+      (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(#])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(])",
+      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(#])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
+      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(#])",
        lambda s, t: (TokenType.ATWORD, t)),
       # A variable dereference ${<word>}
-      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)])",
+      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)#])",
        lambda s, t: (TokenType.DEREF, t)),
       # unquoted_legacy
       (legacy_pattern,
-- 
2.43.0


From 7336bae33ce235a18d90d4d3f1804e091ed3e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 40/50] fix: byte offsets of tokens include the byte-order mark

The text between format-off and format-on is copied from the source by
offset. It came out shifted if the file starts with a byte-order mark.
---
 cmakelang/lex/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 41c18e5..ec0e693 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -186,13 +186,15 @@ def tokenize(contents):
   ], re.DOTALL | getattr(re, "ASCII", 0))
 
   tokens_return = []
+  offset = 0
   if contents.startswith("\ufeff"):
+    offset = len(bytearray(contents[0], 'utf-8'))
     tokens_return = [
         Token(tok_type=TokenType.BYTEORDER_MARK,
               spelling=contents[0],
               index=-1,
               begin=SourceLocation((0, 0, 0)),
-              end=SourceLocation((0, 0, 0)))]
+              end=SourceLocation((0, 0, offset)))]
     contents = contents[1:]
 
   tokens, remainder = scanner.scan(contents)
@@ -205,7 +207,6 @@ def tokenize(contents):
   # inconsistent.
   lineno = 1
   col = 0
-  offset = 0
   for tok_index, (tok_type, spelling) in enumerate(tokens):
     if sys.version_info[0] < 3:
       assert isinstance(spelling, unicode)
-- 
2.43.0


From 0ce01ca65e2851fd7a792e23edd87a171a3640b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:31 +0000
Subject: [PATCH 41/50] fix: bracket comments next to trailing comments are not
 lost

---
 cmakelang/parse/simple_nodes.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index c971e19..35cd115 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -17,6 +17,15 @@ from cmakelang.parse.common import NodeType, TreeNode
 logger = logging.getLogger(__name__)
 
 
+def is_trailing_line_comment(token):
+  """
+  Return true if the token is a valid trailing comment which may be joined with
+  others of its kind
+  """
+  return (token.type == lex.TokenType.COMMENT and
+          is_valid_trailing_comment(token))
+
+
 class WhitespaceNode(TreeNode):
   """Stores a sequence of whitespace tokens at body scope."""
 
@@ -136,10 +145,13 @@ class CommentNode(TreeNode):
     node = cls()
     node.is_implicit_trailing = True
     parent.children.append(node)
-    comment_tokens = node.children
+    if tokens[0].type == lex.TokenType.BRACKET_COMMENT:
+      # Bracket comments get their own node, see consume()
+      node.children.append(tokens.pop(0))
+      return
 
     comment_tokens = []
-    while tokens and is_valid_trailing_comment(tokens[0]):
+    while tokens and is_trailing_line_comment(tokens[0]):
       if (comment_tokens and
           not are_column_aligned(comment_tokens[-1], tokens[0])):
         break
@@ -152,7 +164,7 @@ class CommentNode(TreeNode):
       # a single block
       if (len(tokens) > 1 and
           tokens[0].type == lex.TokenType.NEWLINE and
-          is_valid_trailing_comment(tokens[1])):
+          is_trailing_line_comment(tokens[1])):
         node.children.append(tokens.pop(0))
 
       # Multiple comments separated only by one newline and some whitespace are
@@ -162,7 +174,7 @@ class CommentNode(TreeNode):
       elif (len(tokens) > 2 and
             tokens[0].type == lex.TokenType.NEWLINE and
             tokens[1].type == lex.TokenType.WHITESPACE and
-            is_valid_trailing_comment(tokens[2])):
+            is_trailing_line_comment(tokens[2])):
         node.children.append(tokens.pop(0))
         node.children.append(tokens.pop(0))
 
-- 
2.43.0


From 08559103cf572771306096b2bb040c0f4ec400a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 42/50] fix: nothing follows a line comment which is not
 aligned with the next one

---
 cmakelang/format/formatter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 5a4e0cc..6406e55 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -16,7 +16,7 @@ from cmakelang.common import UserError
 from cmakelang.lex import TokenType
 from cmakelang.parse.argument_nodes import PositionalGroupNode
 from cmakelang.parse.common import FlowType, NodeType, TreeNode
-from cmakelang.parse.util import comment_is_tag
+from cmakelang.parse.util import comment_is_tag, WHITESPACE_TOKENS
 from cmakelang.parse import simple_nodes
 
 logger = logging.getLogger(__name__)
@@ -175,10 +175,14 @@ def is_line_comment(node):
   if not isinstance(node, TreeNode):
     return False
 
-  if not node.children:
-    return False
+  for token in reversed(node.children):
+    # The comment may end with whitespace between it and a next comment which
+    # turned out not to belong to the same node
+    if token.type in WHITESPACE_TOKENS:
+      continue
+    return token.type == TokenType.COMMENT
 
-  return node.children[-1].type == TokenType.COMMENT
+  return False
 
 
 def get_pathstr(node_path):
-- 
2.43.0


From 2b372be33153b2d7cccbbee3d6861c26abd67e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 43/50] fix: parentheses are not written while formatting is
 off

---
 cmakelang/format/formatter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 6406e55..1c214a0 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -628,6 +628,9 @@ class ParenNode(LayoutNode):
     return cursor + (0, 1)
 
   def write(self, config, ctx):
+    if not ctx.is_active():
+      return
+
     if self.node_type == NodeType.LPAREN:
       ctx.outfile.write_at(self.position, '(')
     elif self.node_type == NodeType.RPAREN:
-- 
2.43.0


From 3894b23c198af68d87b5c39ef61402b3a4f063d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 44/50] fix: format pragmas within statements take effect while
 formatting is off

---
 cmakelang/format/formatter.py | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 1c214a0..ee1c2da 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -989,11 +989,6 @@ class StatementNode(LayoutNode):
     self._colextent = max(self._colextent, rparen.colextent)
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(StatementNode, self).write(config, ctx)
-
 
 class AtWordStatementNode(LayoutNode):
   """
@@ -1054,11 +1049,6 @@ class AtWordStatementNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(AtWordStatementNode, self).write(config, ctx)
-
 
 class KwargGroupNode(LayoutNode):
   """
@@ -1471,11 +1461,6 @@ class ArgGroupNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ArgGroupNode, self).write(config, ctx)
-
 
 class ParenGroupNode(LayoutNode):
   """
@@ -1579,11 +1564,6 @@ class ParenGroupNode(LayoutNode):
       column_cursor[0] = cursor[0]
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ParenGroupNode, self).write(config, ctx)
-
 
 class BodyNode(LayoutNode):
   """
-- 
2.43.0


From f8f2e6bdb1aafd48506dbe6dcaed1a3937bc54e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 45/50] fix: a repeated format-off pragma does not lose the
 text before it

---
 cmakelang/format/formatter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index ee1c2da..bc651f5 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -787,6 +787,10 @@ class OnOffSwitchNode(LayoutNode):
         ctx.offswitch_location = None
         ctx.outfile.forge_cursor(self.position)
     elif token.type == TokenType.FORMAT_OFF:
+      if not ctx.is_active():
+        # Already off. This pragma is part of the text which is copied when
+        # formatting is switched on again.
+        return
       spelling = "# cmake-format: off"
       ctx.offswitch_location = token.end
 
-- 
2.43.0


From db8f9c7ed9f70cf8353cb338c33b19a42c45c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:28 +0000
Subject: [PATCH 46/50] fix: text after a last format-off pragma is not dropped

---
 cmakelang/format/formatter.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index bc651f5..a97763b 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -779,11 +779,7 @@ class OnOffSwitchNode(LayoutNode):
             "'#cmake-format: on' with no corresponding 'off' at %d:%d",
             token.begin.line, token.begin.col)
       else:
-        ctx.infile.seek(ctx.offswitch_location.offset, 0)
-        copy_size = token.begin.offset - ctx.offswitch_location.offset
-        copy_bytes = ctx.infile.read(copy_size)
-        copy_text = copy_bytes.decode('utf-8')
-        ctx.outfile.write(copy_text)
+        ctx.copy_until(token.begin.offset)
         ctx.offswitch_location = None
         ctx.outfile.forge_cursor(self.position)
     elif token.type == TokenType.FORMAT_OFF:
@@ -1965,6 +1961,9 @@ class CursorFile(object):
       self._cursor[0] += copy_text.count('\n')
       self._cursor[1] = len(copy_text.split('\n')[-1])
 
+  def gettext(self):
+    return self._fobj.getvalue()
+
   def getvalue(self):
     return self._fobj.getvalue() + self._config.format.endl
 
@@ -1989,6 +1988,16 @@ class WriteContext(object):
   def is_active(self):
     return self.offswitch_location is None
 
+  def copy_until(self, offset=None):
+    """
+    Transcribe the text of the source file from where formatting was switched
+    off up to the given byte offset, or up to the end of the file.
+    """
+    begin = self.offswitch_location.offset
+    self.infile.seek(begin, 0)
+    copy_bytes = self.infile.read(-1 if offset is None else offset - begin)
+    self.outfile.write(copy_bytes.decode('utf-8'))
+
 
 def write_tree(root_box, config, infile_content):
   """
@@ -2001,4 +2010,7 @@ def write_tree(root_box, config, infile_content):
     logging.warning("'# cmake-format: off' is never turned back 'on'"
                     "at %d:%d", ctx.offswitch_location.line,
                     ctx.offswitch_location.col)
+    # The copied text has its own final newline, if any
+    ctx.copy_until()
+    return ctx.outfile.gettext()
   return ctx.outfile.getvalue()
-- 
2.43.0


From ffee75e7a14e7cd3967e53f825bc78708c212168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 47/50] fix: trailing whitespace within an argument is kept

---
 cmakelang/format/formatter.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index a97763b..6ec6474 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -110,6 +110,15 @@ def normalize_line_endings(instr):
   return re.sub('[ \t\f\v]*((\r?\n)|(\r\n?))', '\n', instr)
 
 
+def normalize_argument(instr):
+  """
+  Replace line endings with unix line endings. They will be replaced with
+  config.endl during output. Unlike in comments, trailing whitespace within an
+  argument is part of it's value.
+  """
+  return instr.replace('\r\n', '\n')
+
+
 def count_indentation(linestr):
   """return the number of spaces at the start of the line"""
   for idx, char in enumerate(linestr):
@@ -666,7 +675,7 @@ class ScalarNode(LayoutNode):
 
     # This might be a multiline string or a multiline bracket argument. In
     # that case we need to normalize line endings and flow each line
-    lines = normalize_line_endings(token.spelling).split('\n')
+    lines = normalize_argument(token.spelling).split('\n')
     line = lines.pop(0)
     cursor[1] += len(line)
     self._colextent = cursor[1]
@@ -705,7 +714,7 @@ class ScalarNode(LayoutNode):
     token = self.pnode.children[0]
     assert isinstance(token, lex.Token)
 
-    spelling = normalize_line_endings(token.spelling)
+    spelling = normalize_argument(token.spelling)
     if self.node_type == NodeType.FUNNAME:
       command_case = config.resolve_for_command(
           token.spelling, "format.command_case")
-- 
2.43.0


From 44b19ecea22bea236d66946e84e6be3c6e013f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:38 +0000
Subject: [PATCH 48/50] fix: only indentation is written with tabs

---
 cmakelang/format/__main__.py  |  1 -
 cmakelang/format/formatter.py | 54 +++++++++++++++--------------------
 2 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 6fba6ea..6a3c4ab 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -171,7 +171,6 @@ def process_file(config, infile_content, dump=None):
   if config.encode.emit_byteorder_mark:
     outstr = "\ufeff" + outstr
 
-  outstr = formatter.replace_with_tabs(outstr, config)
   return (outstr, box_tree.reflow_valid)
 
 
diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 6ec6474..2e11647 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -119,40 +119,27 @@ def normalize_argument(instr):
   return instr.replace('\r\n', '\n')
 
 
-def count_indentation(linestr):
-  """return the number of spaces at the start of the line"""
-  for idx, char in enumerate(linestr):
-    if char != ' ':
-      return idx
-  return 0
-
-
-def replace_with_tabs(content, config):
+def get_indentation(num_spaces, config):
   """
-  Apply the tab policy to `content`. If config.use_tabchars is true, then
-  replace spaces at the beginning of every line with tabs according to
+  Return the text which indents a line by `num_spaces` columns. If
+  config.use_tabchars is true, then this consists of tabs according to
   config.tab_size and config.fractional_tab_policy.
   """
   if not config.format.use_tabchars:
-    return content
-
-  outlines = []
-  for inline in content.split("\n"):
-    num_spaces = count_indentation(inline)
-    num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
-    outline = "\t" * num_tabs
-    if fractional:
-      if config.format.fractional_tab_policy == "use-space":
-        outline += " " * fractional
-      elif config.format.fractional_tab_policy == "round-up":
-        outline += "\t"
-      else:
-        raise UserError(
-            "Invalid fractional_tab_policy='{}'"
-            .format(config.format.fractional_tab_policy))
-    outline += inline[num_spaces:]
-    outlines.append(outline)
-  return "\n".join(outlines)
+    return " " * num_spaces
+
+  num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
+  outstr = "\t" * num_tabs
+  if fractional:
+    if config.format.fractional_tab_policy == "use-space":
+      outstr += " " * fractional
+    elif config.format.fractional_tab_policy == "round-up":
+      outstr += "\t"
+    else:
+      raise UserError(
+          "Invalid fractional_tab_policy='{}'"
+          .format(config.format.fractional_tab_policy))
+  return outstr
 
 
 def need_paren_space(spelling, config):
@@ -1943,7 +1930,12 @@ class CursorFile(object):
 
     cols = (cursor[1] - self._cursor[1])
     if cols:
-      self._fobj.write(' ' * cols)
+      if self._cursor[1] == 0:
+        # Only indentation is written with tabs, which neither leading spaces
+        # within a multiline argument nor those of verbatim text are
+        self._fobj.write(get_indentation(cols, self._config))
+      else:
+        self._fobj.write(' ' * cols)
       self._cursor[1] += cols
 
     lines = text.split('\n')
-- 
2.43.0


From df2e7ca18e82e9164925b29950c40c4c4e1714c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 49/50] fix: look past the white space before a trailing
 comment only if a token follows

---
 cmakelang/parse/simple_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index 35cd115..0266ddc 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -145,7 +145,7 @@ class CommentNode(TreeNode):
     node = cls()
     node.is_implicit_trailing = True
     parent.children.append(node)
-    if tokens[0].type == lex.TokenType.BRACKET_COMMENT:
+    if tokens and tokens[0].type == lex.TokenType.BRACKET_COMMENT:
       # Bracket comments get their own node, see consume()
       node.children.append(tokens.pop(0))
       return
-- 
2.43.0


From 3a5edcb4922f22167f454088b6892a240e7afbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 50/50] fix: a number at the start of a line does not continue
 an enumeration

---
 cmakelang/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 1432ff1..27b93d3 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -134,7 +134,8 @@ def parse(lines, config=None):
         # TODO(josh) We want to match lines with either the same number of
         # spaces or with the colon in the same column
         bullet_regex = re.compile(
-            r'^{}\d+{}( .*)$'.format(indent_str, bullet_punctuation))
+            r'^{}\d+{}( .*)$'.format(
+                indent_str, re.escape(bullet_punctuation)))
         continue
 
       if NOTE_REGEX.match(line):
-- 
2.43.0

