"""C18: encoding and newline of every text stream.

(1) Every call in the package which opens a text stream names its encoding,
with no lossy error handler.  (2) The drivers which read listfiles are
interpreted abstractly: at each read and write of a listfile the stream's
encoding must be the configured one, its newline translation off, and the text
handed on must be exactly the text read."""
import ast

from ..absint import (C, Ext, U, Tup, Inst, Sig, NONE, TRUE, FALSE, ExcV, show, BM, Ref)
from ..cli import FilePlugin, run_entry, is_write_mode, mentions, OPENERS
from ..model import AnchorError, Klass, FunctionInfo

FMT = "cmakelang.format.__main__"
ARGS = U(("args",))
PARSER = U(("argparser",))
CFG = U(("cfg",))
OUT = U(("outtext",))
EXCLUDED = ("cmakelang.tools", "cmakelang.doc", "cmakelang.contrib", "cmakelang.pypi",
            "cmakelang.test", "cmakelang.tests", "cmakelang.command_tests")


def cfg_encoding(which):
  return U(("attr", U(("attr", CFG, "encode")), which))


class P(FilePlugin):

  def __init__(self, ctx, qual, mods, opaque, formats):
    FilePlugin.__init__(self, inline_mods=mods, opaque=opaque)
    self.ctx, self.qual, self.formats = ctx, qual, formats
    h = self.handlers
    h["argparse.ArgumentParser"] = lambda st, a, k, n: [(st, PARSER)]
    h["cmakelang.configuration.Configuration"] = lambda st, a, k, n: [(st, CFG)]
    h["cmakelang.lex.tokenize"] = self.sink
    h["cmakelang.render.get_html"] = lambda st, a, k, n: [(st, OUT)]
    for m in mods:
      if m != "cmakelang.annotate":
        h[m + ".process_file"] = self.sink

  def event(self, st, *ev):
    pass

  def may_raise(self, st, f, node):
    return False

  def on_attr(self, st, base, name, node):
    if base == ARGS and name == "infilepaths":
      return [(st, Tup((U(("infile_path",)),)))]
    return FilePlugin.on_attr(self, st, base, name, node)

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, U) and f.key[0] == "attr":
      if f.key[1] == PARSER and f.key[2] in ("parse_args", "parse_known_args"):
        return [(st, ARGS)]
      if f.key[1] == CFG and f.key[2] == "clone":
        return [(st, CFG)]
    if isinstance(f, Ext) and f.name in ("sys.exit", "exit"):
      return [(st, Sig("raise", ExcV("SystemExit", NONE)))]
    return FilePlugin.on_call(self, st, f, args, kwargs, node)

  def sink(self, st, args, kwargs, node):
    vals = list(args) + list(kwargs.values())
    texts = [v for v in vals if mentions(v, lambda x: isinstance(x, U) and x.key[0] == "content")]
    for v in texts:
      self.ctx.count("texts_handed_on")
      if not (isinstance(v, U) and v.key[0] == "content") and not isinstance(v, Ref):
        self.flag(st, node, "text-altered", "the text of the listfile is changed before it is processed: %s"
                  % show(v)[:60])
    if not texts:
      self.flag(st, node, "text-not-read", "the processing step is not given the text that was read")
    st.p.d["sunk"] = TRUE
    return [(st, Tup((OUT, TRUE)) if self.formats else U(("result",)))]

  def flag(self, st, node, rule, msg):
    self.ctx.violation(rule, self.qual, self.interp.where(st, node), msg)

  def on_method(self, st, base, name, args, kwargs, node):
    if isinstance(base, Ref):
      o = st.heap.get(base)
      if isinstance(o, Inst) and o.klass == "File":
        if name in ("read", "readlines", "readline"):
          self.stream(st, o, node, False)
          return [(st, U(("content", base)))]
        if name in ("write", "writelines"):
          self.stream(st, o, node, True)
          return [(st, NONE)]
        if name == "close":
          return [(st, NONE)]
    return FilePlugin.on_method(self, st, base, name, args, kwargs, node)

  def fork_raise(self, st, ok, exc, node, msg):
    return [(st, ok)]

  def do_open(self, st, args, kwargs, node):
    out = FilePlugin.do_open(self, st, args, kwargs, node)[:1]
    return out

  def on_with(self, st, val, node, body):
    out = FilePlugin.on_with(self, st, val, node, body)
    return out

  def stream(self, st, o, node, write):
    c = self.ctx
    enc = self.interp.resolve(st, o.attrs["$enc"])
    nl = self.interp.resolve(st, o.attrs["$nl"])
    mode = self.interp.resolve(st, o.attrs["$mode"])
    c.count("stream_writes" if write else "stream_reads")
    if isinstance(mode, C) and isinstance(mode.v, str) and "b" in mode.v:
      self.flag(st, node, "binary", "a listfile is handled as bytes, so its encoding is not applied here")
      return
    if write and not self.formats:
      if enc == NONE:
        self.flag(st, node, "encoding", "output is written with the locale's encoding")
      return
    want = cfg_encoding("output_encoding" if write else "input_encoding")
    if enc != want and self.qual not in FIXED_ENCODING:
      self.flag(st, node, "encoding", "the stream's encoding is %s, not the configured %s" % (
          show(enc), "output_encoding" if write else "input_encoding"))
    if enc == NONE:
      self.flag(st, node, "encoding", "the stream uses the locale's encoding")
    if nl != C(""):
      self.flag(st, node, "newline", "newlines are translated when the listfile is %s (newline=%s)" % (
          "written" if write else "read", show(nl)))

  def content(self, st, ref):
    return U(("content", ref))

  def initial(self):
    p = FilePlugin.initial(self)
    p.d["sunk"] = FALSE
    return p


# a debugging aid without configuration: its encoding must be given, but is fixed
FIXED_ENCODING = {"cmakelang.lex.__main__.main"}

DRIVERS = [
    (FMT + ".onefile_main", [FMT], True),
    ("cmakelang.lint.__main__.inner_main", ["cmakelang.lint.__main__"], False),
    ("cmakelang.annotate.main", ["cmakelang.annotate"], True),
    ("cmakelang.genparsers.main", ["cmakelang.genparsers"], False),
    ("cmakelang.lint.tools.analyze_naming.inner_main", ["cmakelang.lint.tools.analyze_naming"], False),
    ("cmakelang.lex.__main__.main", ["cmakelang.lex.__main__"], False),
]


def irrelevant(model, mods):
  """Functions of the driver's modules which neither open nor read nor close
  a stream, themselves or through others: they need not be followed."""
  infos = [f for f in model.functions.values() if f.mod.name in mods]
  hot = set()
  for f in infos:
    for n in ast.walk(f.node):
      if isinstance(n, ast.Call):
        if is_open(model, f.mod, n.func) or isinstance(n.func, ast.Attribute) and \
            n.func.attr in ("read", "readlines", "readline", "writelines"):
          hot.add(f.qual)
  names = {f.qual: {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} |
           {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} for f in infos}
  grown = True
  while grown:
    grown = False
    leaf = {q.rsplit(".", 1)[1] for q in hot} | {"tokenize"}
    for f in infos:
      if f.qual not in hot and names[f.qual] & leaf:
        hot.add(f.qual)
        grown = True
  return [f.qual for f in infos if f.qual not in hot]


def is_open(model, mod, func):
  if isinstance(func, ast.Name) and func.id == "open" and func.id not in mod.bind:
    return "open"
  try:
    ent = model.resolve_expr(mod, func)
  except AnchorError:
    return None
  if isinstance(ent, tuple) and ent[0] == "ext" and ent[1] in OPENERS:
    return ent[1]
  if isinstance(func, ast.Attribute) and func.attr in ("read_text", "write_text"):
    return func.attr
  return None


def opens(ctx):
  m = ctx.model
  for name, mod in sorted(m.modules.items()):
    if any(name == x or name.startswith(x + ".") for x in EXCLUDED) or "test" in name:
      continue
    for n in ast.walk(mod.tree):
      if not isinstance(n, ast.Call):
        continue
      k = is_open(m, mod, n.func)
      if k is None:
        if isinstance(n.func, ast.Attribute) and n.func.attr == "StringIO" or \
            isinstance(n.func, ast.Name) and n.func.id == "StringIO":
          ctx.count("string_buffers")
          for kw in n.keywords:
            if kw.arg == "newline" and not (isinstance(kw.value, ast.Constant)
                                            and kw.value.value in ("", "\n")):
              ctx.violation("buffer-newline", "%s %s" % (name, owner(mod, n)), "%s:%d" % (mod.relpath, n.lineno),
                            "text collected in this buffer has its newlines translated")
        continue
      if k == "os.fdopen" and False:
        continue
      ctx.count("open_calls")
      where = "%s:%d" % (mod.relpath, n.lineno)
      key = "%s %s" % (name, owner(mod, n))
      kws = {x.arg: x.value for x in n.keywords}
      if None in kws:
        continue          # **kwargs: judged by the interpreted drivers only
      pos = {"open": 1, "io.open": 1, "builtins.open": 1, "os.fdopen": 1, "codecs.open": 1}.get(k)
      mode = kws.get("mode") or (n.args[pos] if pos and len(n.args) > pos else None)
      if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and "b" in mode.value:
        continue
      encpos = {"codecs.open": 2, "read_text": 0, "write_text": 1}.get(k, 3)
      enc = kws.get("encoding") or (n.args[encpos] if len(n.args) > encpos else None)
      if enc is None or isinstance(enc, ast.Constant) and enc.value is None:
        ctx.violation("no-encoding", key, where, "a text stream is opened with the locale's encoding")
      err = kws.get("errors")
      if isinstance(err, ast.Constant) and err.value not in (None, "strict", "surrogateescape"):
        ctx.violation("lossy", key, where, "characters which cannot be coded are silently changed (errors=%r)" % err.value)


def owner(mod, node):
  best = "<module>"
  for n in ast.walk(mod.tree):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= node.lineno <= (n.end_lineno or 0):
      best = n.name if best == "<module>" else best + "." + n.name
  return best


def run(ctx):
  m = ctx.model
  ctx.rule("every text stream is opened with an explicit encoding and without a lossy error handler")
  ctx.rule("listfiles are read with encode.input_encoding and newline='', handed on unchanged, and "
           "written with encode.output_encoding and newline=''")
  opens(ctx)
  for qual, mods, formats in DRIVERS:
    info = m.function(qual)
    opaque = [FMT + ".get_config", FMT + ".dump_config", FMT + ".get_argdict"]
    for mm in mods:
      opaque += [mm + "." + x for x in ("setup_argparser", "setup_argparse")]
    opaque += irrelevant(m, mods)
    p = P(ctx, qual, mods, opaque, formats)

    def setup(st, info=info, qual=qual):
      if qual.endswith("onefile_main"):
        return [U(("infile_path",)), ARGS] + [U(("arg", n)) for n in info.params[2:]], {}
      return [], {}
    it, res = run_entry(m, p, qual, setup)
    done = 0
    for st, v in res:
      ctx.count("driver_paths")
      if st.p.d["sunk"] == TRUE:
        done += 1
    if not done:
      ctx.violation("driver-does-nothing", qual, info.where, "no path of the driver processes the text of a listfile")
    ctx.count("drivers")
  # the formatter's own buffer and the annotator's reading of the stream
  ctx.expect("open_calls", 14)
  ctx.expect("drivers", 6)
  ctx.expect("stream_reads", 6)
  ctx.expect("stream_writes", 3)
  ctx.expect("texts_handed_on", 6)
