"""C12: file typestate over every path of the formatter's per-file driver.

onefile_main is interpreted abstractly, every helper of its module inlined; the
command-line switches, configuration values and texts are symbolic, each
branch is followed both ways, and every open/read/write/close/move/delete can
also fail.  Each event is judged against the facts established on its path."""
from .. import cli
from ..cli import (FilePlugin, INTEXT, OUTTEXT, VALID, is_write_mode, mentions,
                   run_entry)
from ..absint import (C, Ext, U, Tup, Inst, Sig, NONE, TRUE, FALSE, ExcV, show)

MAIN = "cmakelang.format.__main__"
ARGS = U(("args",))
INPATH = U(("infile_path",))
CFG = U(("cfg",))
ARGD = U(("argparse_dict",))


def A(name, base=ARGS):
  return U(("attr", base, name))


FMT = A("format", CFG)


class C12Plugin(FilePlugin):

  def __init__(self, ctx, model):
    FilePlugin.__init__(self, inline_mods=[MAIN], opaque=[
        MAIN + ".get_config", MAIN + ".dump_config", MAIN + ".setup_argparser",
        MAIN + ".get_argdict"])
    self.ctx = ctx
    self.handlers = {
        MAIN + ".process_file": self.process,
        "cmakelang.configuration.Configuration": self.config,
    }

  def initial(self):
    p = FilePlugin.initial(self)
    p.d["done"] = C(False)
    return p

  def config(self, st, args, kwargs, node):
    return [(st, CFG)]

  def process(self, st, args, kwargs, node):
    allargs = list(args) + list(kwargs.values())
    s2 = st.copy()
    if not any(a == INTEXT for a in allargs):
      self.flag(st, node, "process-input", "the formatter is not given the whole text read from the input")
    st.p.d["done"] = C(True)
    s2.note(self.interp.where(s2, node), "formatting raises")
    return [(st, Tup((OUTTEXT, VALID))), (s2, Sig("raise", ExcV("?", NONE)))]

  def content(self, st, ref):
    if self.is_input(st, st.heap[ref].attrs["$path"]):
      return INTEXT
    return U(("content", ref))

  def is_input(self, st, path):
    path = self.interp.resolve(st, path)
    if path == self.interp.resolve(st, INPATH):
      return True
    return mentions(path, lambda x: isinstance(x, Ext) and "stdin" in x.name)

  def is_stdout(self, path):
    return mentions(path, lambda x: isinstance(x, Ext) and "stdout" in x.name)

  def flag(self, st, node, rule, msg):
    self.ctx.violation(rule, "%s.onefile_main" % MAIN, self.interp.where(st, node),
                       msg + " [path: %s]" % " ; ".join(st.path(8)))

  def check_event(self, st, node):
    ev = st.p.d["ev"][-1]
    done = st.p.d["done"].v
    c = self.ctx
    if ev[0] == "open":
      w = is_write_mode(self.interp.resolve(st, ev[3]))
      if w is False:
        return
      c.count("write_opens_on_paths")
      c.sample("open for write of %s at %s" % (show(ev[2])[:80], ev[4]))
      if not done:
        self.flag(st, node, "write-before-format",
                  "a file is opened for writing before formatting succeeded")
      if self.known(st, A("check")) is not False:
        self.flag(st, node, "check-writes", "check mode can open a file for writing")
      if self.known(st, A("require_valid_layout", FMT)) is not False and \
          self.known(st, VALID) is not True:
        self.flag(st, node, "invalid-layout-written",
                  "a file is opened for writing although a valid layout is required and was not found")
      path = self.interp.resolve(st, ev[2])
      if path == self.interp.resolve(st, INPATH):
        self.flag(st, node, "in-place-direct",
                  "the source file itself is opened for writing instead of a temporary file")
      ip = self.known(st, A("in_place"))
      if ip is not False:
        same = U(("eq",) + tuple(sorted([INTEXT, OUTTEXT], key=repr)))
        if ip is True and st.truth.get(same) is not False:
          self.flag(st, node, "unchanged-rewritten",
                    "in-place mode opens a file for writing without knowing that the text changed")
      elif path != self.interp.resolve(st, A("outfile_path")) and not self.is_stdout(path):
        self.flag(st, node, "wrong-target",
                  "output is written to %s, neither standard output nor the requested file" % show(path)[:60])
    elif ev[0] == "write":
      o = st.heap.get(ev[1])
      c.count("writes_on_paths")
      if ev[2] != OUTTEXT:
        self.flag(st, node, "altered-text",
                  "the text written is not exactly the formatter's result")
    elif ev[0] in ("move", "copy"):
      c.count("moves_on_paths")
      src, dst = self.interp.resolve(st, ev[1]), self.interp.resolve(st, ev[2])
      inp = self.interp.resolve(st, INPATH)
      if dst != inp:
        self.flag(st, node, "move-target", "a file is moved over %s, which is not the source file" % show(dst)[:60])
        return
      if ev[0] == "copy":
        self.flag(st, node, "in-place-direct", "the source file is overwritten by copying instead of an atomic move")
      if self.known(st, A("in_place")) is not True:
        self.flag(st, node, "not-in-place", "the source file is replaced without in-place mode")
      files = [(r, o) for r, o in st.heap.items() if isinstance(o, Inst) and o.klass == "File"
               and self.interp.resolve(st, o.attrs["$path"]) == src
               and is_write_mode(self.interp.resolve(st, o.attrs["$mode"])) is not False]
      opened = [e for e in st.p.d["ev"] if e[0] == "open"
                and self.interp.resolve(st, e[2]) == src
                and is_write_mode(self.interp.resolve(st, e[3])) is not False]
      if not opened:
        self.flag(st, node, "move-source", "the file moved over the source was not written by this run")
        return
      ref = opened[-1][1]
      evs = st.p.d["ev"]
      writes = [i for i, e in enumerate(evs) if e[0] == "write" and e[1] == ref]
      closes = [i for i, e in enumerate(evs) if e[0] == "close" and e[1] == ref]
      if len(writes) != 1:
        self.flag(st, node, "incomplete-temp", "the temporary file is written %d times before the move" % len(writes))
      elif not closes or closes[-1] < writes[-1]:
        self.flag(st, node, "unclosed-temp", "the temporary file is moved over the source before it is closed")
      modes = [i for i, e in enumerate(evs) if e[0] == "copymode" and len(e) > 2 and
               self.interp.resolve(st, e[1]) == inp and self.interp.resolve(st, e[2]) == src]
      if not modes:
        self.flag(st, node, "permissions", "the source's permissions are not copied to the temporary file before the move")
      elif opened and modes and modes[-1] < evs.index(opened[-1]):
        self.flag(st, node, "permissions", "permissions are copied before the temporary file exists")
    elif ev[0] == "remove":
      if self.is_input(st, ev[1]):
        self.flag(st, node, "source-deleted", "the source file is deleted")


def setup(model):
  info = model.function(MAIN + ".onefile_main")
  names = info.params
  if len(names) < 3:
    from ..model import AnchorError
    raise AnchorError("onefile_main no longer takes (path, args, argparse_dict)")
  return lambda st: ([INPATH, ARGS, ARGD] + [U(("arg", n)) for n in names[3:]], {})


def run(ctx):
  m = ctx.model
  ctx.rule("every write-open is dominated by successful formatting, not check mode, "
           "valid layout where required, and (in place) a known difference; its target is a "
           "temporary name, the requested output file or standard output")
  ctx.rule("a move over the source needs in-place mode, a temporary file opened, written exactly "
           "once with the formatter's text, closed, and given the source's permissions")
  ctx.rule("every successful path delivers the text: moved over the source, written to the "
           "output, or deliberately skipped (disabled, unchanged, check)")
  p = C12Plugin(ctx, m)
  it, res = run_entry(m, p, MAIN + ".onefile_main", setup(m))
  same = U(("eq",) + tuple(sorted([INTEXT, OUTTEXT], key=repr)))
  for st, v in res:
    ctx.count("paths")
    evs = st.p.d["ev"]
    if isinstance(v, Sig):
      continue
    for r, o in st.heap.items():
      if isinstance(o, Inst) and o.klass == "File" and o.attrs["$st"] == C("open") and \
          is_write_mode(it.resolve(st, o.attrs["$mode"])) is not False:
        ctx.violation("not-closed", MAIN + ".onefile_main", "cmakelang/format/__main__.py",
                      "a file opened for writing is not closed on a path: %s" % " ; ".join(st.path(8)))
    ctx.count("successful_paths")
    if not st.p.d["done"].v:
      if p.known(st, A("disable", FMT)) is True:
        continue
      ctx.violation("not-processed", MAIN + ".onefile_main", "cmakelang/format/__main__.py",
                    "a file is reported as done without having been formatted: %s" % " ; ".join(st.path(8)))
      continue
    if p.known(st, A("check")) is True:
      continue
    if p.known(st, A("in_place")) is True:
      if st.truth.get(same) is True:
        continue
      if not any(e[0] == "move" for e in evs):
        ctx.violation("not-replaced", MAIN + ".onefile_main", "cmakelang/format/__main__.py",
                      "in-place mode ends without replacing a changed file: %s" % " ; ".join(st.path(8)))
      continue
    if not any(e[0] == "write" for e in evs):
      ctx.violation("not-written", MAIN + ".onefile_main", "cmakelang/format/__main__.py",
                    "formatting succeeded but the text is written nowhere: %s" % " ; ".join(st.path(8)))
  ctx.count("functions_interpreted", len(it.fn_seen))
  ctx.expect("write_opens_on_paths", 3)
  ctx.expect("moves_on_paths", 1)
  ctx.expect("successful_paths", 4)
