"""C13: exit-status dataflow over every path of the format and lint drivers.

main() of both programs is interpreted abstractly with its helpers inlined.
Wherever a file can fail (parse, format, read, open, check, lint found, bad
command line) the path is marked failed, over any number of loop rounds; a
failed path must end with a non-zero status or an escaping exception, and a
caught diagnosed error must be logged.  In onefile_main every failing
condition must leave by an exception."""
import ast

from .. import cli
from ..cli import FilePlugin, INTEXT, OUTTEXT, VALID, run_entry
from ..absint import (C, Ext, U, Tup, Inst, Sig, NONE, TRUE, FALSE, ExcV, show, BM, Ref)
from ..model import AnchorError
from . import c12

FMT = "cmakelang.format.__main__"
LINT = "cmakelang.lint.__main__"
ERRORS = ["cmakelang.common.UserError", "cmakelang.common.InternalError",
          "AssertionError", "cmakelang.common.FormatError"]
ARGS = U(("args",))
PARSER = U(("argparser",))


class MainPlugin(FilePlugin):

  def __init__(self, ctx, mods, opaque):
    FilePlugin.__init__(self, inline_mods=mods, opaque=opaque)
    self.ctx = ctx
    self.handlers["argparse.ArgumentParser"] = lambda st, a, k, n: [(st, PARSER)]
    self.fails = set()

  def initial(self):
    p = FilePlugin.initial(self)
    p.d["failed"] = FALSE
    p.d["logged"] = FALSE
    p.d["lint"] = FALSE
    return p

  def event(self, st, *ev):
    pass

  def fail(self, st, node, what):
    self.fails.add(what)
    st.p.d["failed"] = C(what)
    st.p.d["logged"] = FALSE
    st.note(self.interp.where(st, node), what)

  def fork_raise(self, st, ok, exc, node, msg):
    out = FilePlugin.fork_raise(self, st, ok, exc, node, msg)
    self.fail(out[1][0], node, msg)
    return out

  def do_open(self, st, args, kwargs, node):
    out = FilePlugin.do_open(self, st, args, kwargs, node)
    self.fail(out[1][0], node, "open fails")
    return out

  def on_method(self, st, base, name, args, kwargs, node):
    if isinstance(base, Ref) and isinstance(st.heap.get(base), Inst) \
        and st.heap[base].klass == "File":
      if name in ("read", "readlines"):
        return self.fork_raise(st, U(("content", base)), "UnicodeDecodeError", node, "read fails")
      if name == "close":
        self.close(st, base, node)
      return [(st, NONE)]
    return FilePlugin.on_method(self, st, base, name, args, kwargs, node)

  def may_raise(self, st, f, node):
    return False

  def step(self, what, value, excs, lints=False):
    """Handler for a processing step which succeeds or raises; one that lints
    may also find lint, which is a failure whether or not anyone asks."""
    def h(st, args, kwargs, node):
      out = []
      if lints:
        s = st.copy()
        self.fail(s, node, "lint found in a file")
        s.p.d["logged"] = TRUE
        s.p.d["lint"] = TRUE
        out.append((s, value))
        st.p.d["lint"] = FALSE
      for e in excs:
        s = st.copy()
        self.fail(s, node, "%s raises %s" % (what, e.split(".")[-1]))
        out.append((s, Sig("raise", ExcV(e, U(("msg",))))))
      out.append((st, value))
      return out
    return h

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, Ext) and f.name in ("sys.exit", "exit", "quit"):
      return [(st, Sig("raise", ExcV("SystemExit", args[0] if args else NONE)))]
    if isinstance(f, Ext) and (f.name.startswith("logging.") or f.name.startswith("sys.stderr")
                               or f.name == "print"):
      if f.name.split(".")[-1] in LOGS:
        st.p.d["logged"] = TRUE
      return [(st, NONE)] if f.name != "logging.getLogger" else [(st, Ext("logging.logger"))]
    if isinstance(f, U) and f.key[0] == "attr":
      base, name = f.key[1], f.key[2]
      if base == PARSER and name in ("parse_args", "parse_known_args"):
        s2 = st.copy()
        self.fail(s2, node, "the command line is invalid (SystemExit 2)")
        return [(st, ARGS), (s2, Sig("raise", ExcV("SystemExit", C(2))))]
      if isinstance(base, U) and base.key[0] == "glob" and base.key[-1] == "logger":
        if name in LOGS:
          st.p.d["logged"] = TRUE
        return [(st, NONE)]
      if name in ("has_lint", "get_lint", "get_category_counts"):
        self.asked = True
        lint = st.p.d["lint"]
        if name == "get_category_counts" and st.p.d["failed"].v == "lint found in a file":
          lint = TRUE
        if name == "has_lint":
          return [(st, lint)]
        return [(st, Tup((U(("lintrecord",)),)) if lint == TRUE else Tup(()))]
    return FilePlugin.on_call(self, st, f, args, kwargs, node)

  def on_attr(self, st, base, name, node):
    if isinstance(base, ExcV) and name == "code":
      return [(st, base.val)]
    if isinstance(base, ExcV) and name == "args":
      return [(st, Tup((base.val,)))]
    return FilePlugin.on_attr(self, st, base, name, node)


LOGS = ("error", "fatal", "critical", "exception", "warning", "write", "print", "log")


def truthy(v):
  if isinstance(v, C):
    return bool(v.v)
  return None


def judge(ctx, it, res, qual, where):
  for st, v in res:
    ctx.count("main_paths")
    failed = st.p.d["failed"]
    code = v
    if isinstance(v, Sig):
      if v.val is None or v.val.cls != "SystemExit":
        continue   # an escaping exception is a non-zero exit with traceback
      code = v.val.val
    code = it.resolve(st, code)
    if failed == FALSE:
      if truthy(code) is True and not any(
          "handler entered" in x or "assertion fails" in x or " raise " in x for x in st.path(80)):
        ctx.violation("spurious-failure", qual, where,
                      "a run without any failure ends with status %s: %s" % (show(code), " ; ".join(st.path(8))))
      continue
    ctx.count("failed_paths")
    ctx.sample("%s -> %s" % (failed.v, show(code)))
    if truthy(code) is not True:
      ctx.violation("swallowed-failure", "%s: %s" % (qual, failed.v), where,
                    "after '%s' the program ends with status %s: %s" % (
                        failed.v, show(code), " ; ".join(st.path(8))))
    if st.p.d["logged"] == FALSE and "SystemExit" not in failed.v:
      ctx.violation("unreported-failure", "%s: %s" % (qual, failed.v), where,
                    "'%s' ends in status %s without any message: %s" % (
                        failed.v, show(code), " ; ".join(st.path(8))))


def exit_wrapper(ctx, modname):
  """Running the module as a script must pass main()'s result to sys.exit."""
  mod = ctx.model.module(modname)
  found = False
  for st in mod.tree.body:
    if not (isinstance(st, ast.If) and "__name__" in ast.dump(st.test)):
      continue
    for n in ast.walk(st):
      if isinstance(n, ast.Call):
        ent = ctx.model.resolve_expr(mod, n.func)
        if getattr(ent, "qual", None) == modname + ".main":
          found = True
          p = n._parent
          ok = False
          if isinstance(p, ast.Call):
            e2 = ctx.model.resolve_expr(mod, p.func)
            ok = e2 in (("ext", "sys.exit"), ("ext", "exit"))
          elif isinstance(p, ast.Raise):
            ok = False
          if isinstance(p, ast.Assign):
            tgt = p.targets[0]
            ok = isinstance(tgt, ast.Name) and any(
                isinstance(c, ast.Call) and ctx.model.resolve_expr(mod, c.func) == ("ext", "sys.exit")
                and c.args and isinstance(c.args[0], ast.Name) and c.args[0].id == tgt.id
                for c in ast.walk(st))
          ctx.count("script_entries")
          if not ok:
            ctx.violation("status-dropped", modname, "%s:%d" % (mod.relpath, n.lineno),
                          "running the program as a script discards the status of main()")
  if not found:
    raise AnchorError("%s has no script entry calling main()" % modname)


class Quiet:
  def violation(self, *a):
    pass

  def count(self, *a):
    pass

  def sample(self, *a):
    pass


def run(ctx):
  m = ctx.model
  ctx.rule("a path on which any file failed ends with a non-zero status or an escaping exception")
  ctx.rule("a path on which nothing failed ends with status 0")
  ctx.rule("a caught failure is logged before the program ends")
  ctx.rule("onefile_main raises when formatting raised, when check mode found a difference and "
           "when a required valid layout was not found, and only then")
  # formatter
  p = MainPlugin(ctx, [FMT], [FMT + ".get_config", FMT + ".dump_config",
                              FMT + ".setup_argparser", FMT + ".get_argdict"])
  p.handlers[FMT + ".onefile_main"] = p.step("onefile_main", NONE, ERRORS)
  it, res = run_entry(m, p, FMT + ".main", lambda st: ([], {}))
  judge(ctx, it, res, FMT + ".main", "cmakelang/format/__main__.py")
  # linter
  p2 = MainPlugin(ctx, [LINT], [LINT + ".setup_argparse"])
  p2.handlers[LINT + ".process_file"] = p2.step("process_file", NONE, ERRORS[:3], lints=True)
  it2, res2 = run_entry(m, p2, LINT + ".main", lambda st: ([], {}))
  judge(ctx, it2, res2, LINT + ".main", "cmakelang/lint/__main__.py")
  for w in sorted(p.fails | p2.fails):
    ctx.count("failure_kinds")
  if not getattr(p2, "asked", False):
    ctx.violation("lint-ignored", LINT + ".inner_main", "cmakelang/lint/__main__.py",
                  "the linter never asks whether a file has lint")
  # per-file driver
  pp = c12.C12Plugin(Quiet(), m)
  it3, res3 = run_entry(m, pp, FMT + ".onefile_main", c12.setup(m))
  same = U(("eq",) + tuple(sorted([INTEXT, OUTTEXT], key=repr)))
  w = "cmakelang/format/__main__.py"
  for st, v in res3:
    ctx.count("onefile_paths")
    raised = isinstance(v, Sig)
    trail = " ; ".join(st.path(8))
    fatal = any("raises" in x or " fails" in x for x in st.path(60))
    if fatal and not raised:
      ctx.violation("failure-hidden", FMT + ".onefile_main", w,
                    "a failure while processing a file does not leave onefile_main: " + trail)
    if not st.p.d["done"].v or fatal:
      continue
    differ = st.truth.get(same) is False
    if pp.known(st, c12.A("check")) is True and st.truth.get(same) is not None:
      if differ and not raised:
        ctx.violation("check-passes", FMT + ".onefile_main", w,
                      "check mode succeeds although the text differs: " + trail)
      if not differ and raised:
        ctx.violation("check-fails", FMT + ".onefile_main", w,
                      "check mode fails although the text is unchanged: " + trail)
    elif pp.known(st, c12.A("check")) is True and not raised:
      ctx.violation("check-passes", FMT + ".onefile_main", w,
                    "check mode succeeds without comparing the text: " + trail)
    if pp.known(st, c12.A("require_valid_layout", c12.FMT)) is True and not raised \
        and pp.known(st, VALID) is not True:
      ctx.violation("layout-passes", FMT + ".onefile_main", w,
                    "an invalid layout is accepted although a valid one is required: " + trail)
  exit_wrapper(ctx, FMT)
  exit_wrapper(ctx, LINT)
  ctx.expect("failed_paths", 8)
  ctx.expect("onefile_paths", 20)
  ctx.expect("failure_kinds", 8)
  ctx.expect("script_entries", 2)
