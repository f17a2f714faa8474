"""Abstract interpretation of the tokenizer (C05, C06).

The scanner is opaque: interpreting tokenize() on an opaque text records the
rule table it is built from and hands back three symbolic (type, text) pairs.
What is known about such a text is whether it contains a line break; lengths,
counts and offsets are kept as linear terms over len(text), count of line
breaks, length behind the last line break and utf-8 length."""
import ast

from .absint import (C, E, U, Ref, Inst, Tup, Lst, Sig, NONE, TRUE, FALSE, ClsV, Ext, ExcV, FnV, BM,
                     Many, show, ModV)
from .cli import run_entry
from .model import AnchorError, Klass, FunctionInfo
from .textdom import TextPlugin

LEX = "cmakelang.lex"
TOKENIZE = LEX + ".tokenize"
TOKEN = LEX + ".Token"
LOC = LEX + ".SourceLocation"
TTYPE = LEX + ".TokenType"
TEXT = U(("contents",))
REST = U(("contents-after-bom",))
SCANNER = U(("scanner",))
SAMPLE = U(("matched-text",))
BOM = "\ufeff"


def spell(i):
  return U(("spelling", i))


def ttype(i):
  return U(("toktype", i))


def term(kind, s):
  return U(("measure", kind, s))


class LexPlugin(TextPlugin):
  CONCRETE = True

  """One run: does the text start with a byte-order mark, which of the three
  matched texts contain line breaks, and is there a remainder."""

  empty = False                # the text is the empty text

  def __init__(self, model, bom, breaks, remainder):
    TextPlugin.__init__(self, inline_mods=[LEX, "cmakelang.common"])
    self.model = model
    self.bom, self.breaks, self.remainder = bom, breaks, remainder
    self.tables = []         # (rules value, flags value, state)
    self.scanned = []
    kl = model.classes.get(LOC)
    self.loc = kl if kl is not None and self.is_tuple(kl) else None

  def is_tuple(self, kl):
    for b in kl.node.bases:
      e = self.model.resolve_expr(kl.mod, b)
      if isinstance(e, Klass):
        if self.is_tuple(e):
          return True
      elif isinstance(b, ast.Name) and b.id == "tuple":
        return True
    return False

  def has_break(self, v):
    if isinstance(v, U) and v.key[0] == "spelling":
      return self.breaks[v.key[1]]
    return None

  # -- opaque text
  def on_attr(self, st, base, name, node):
    if isinstance(base, Ext) and base.name == "sys" and name == "version_info" or \
        base == Ext("sys.version_info"):
      if name == "major":
        return [(st, C(3))]
      return [(st, Tup((C(3), C(12))))]
    if isinstance(base, Tup) and self.loc is not None:
      _, fn = self.loc.lookup(name)
      if fn is not None:
        return self.interp.inline(st, FnV(fn, None), [base], {}, node)
    return TextPlugin.on_attr(self, st, base, name, node)

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, Ext) and f.name == "re.Scanner":
      lex = args[0] if args else kwargs.get("lexicon", NONE)
      flags = args[1] if len(args) > 1 else kwargs.get("flags", C(0))
      self.tables.append((self.interp.expand(st, lex), flags, st.copy()))
      return [(st, SCANNER)]
    if isinstance(f, ClsV) and isinstance(f.klass, Klass) and f.klass is self.loc and \
        self.loc.lookup("__new__")[1] is None and len(args) == 1:
      return [(st, Tup(tuple(self.interp.expand(st, args[0]))))]
    if isinstance(f, U) and f.key[0] == "attr" and len(f.key) == 3:
      got = self.on_method(st, f.key[1], f.key[2], args, kwargs, node)
      if got is not None:
        return got
    name = f.name if isinstance(f, Ext) else None
    if name in ("bytearray", "bytes", "builtins.bytearray", "builtins.bytes") and args:
      return self.encode(st, args[0], args[1:], kwargs)
    if name in ("len", "builtins.len") and len(args) == 1:
      v = self.interp.resolve(st, args[0])
      if isinstance(v, U) and v.key[0] == "u8":
        return [(st, term("u8", v.key[1]))]
      if isinstance(v, U) and v.key[0] == "tail":
        return [(st, term("tail", v.key[1]))]
      if isinstance(v, U) and v.key[0] == "spelling":
        return [(st, term("len", v))]
      if isinstance(v, U) and v.key[0] == "lines":
        return [(st, U(("bin", "Add", term("nl", v.key[1]), C(1))))]
    return TextPlugin.on_call(self, st, f, args, kwargs, node)

  def encode(self, st, v, args, kwargs):
    v = self.interp.resolve(st, v)
    enc = args[0] if args else kwargs.get("encoding", C("utf-8"))
    if isinstance(v, U) and v.key[0] == "spelling" and isinstance(enc, C) and \
        str(enc.v).lower().replace("_", "-") in ("utf-8", "utf8"):
      return [(st, U(("u8", v)))]
    if isinstance(v, C) and isinstance(v.v, str) and isinstance(enc, C):
      try:
        return [(st, C(v.v.encode(enc.v)))]
      except Exception:
        pass
    return [(st, U(("encoded", v, enc)))]

  def on_method(self, st, base, name, args, kwargs, node):
    base = self.interp.resolve(st, base)
    args = [self.interp.resolve(st, a) for a in args]
    if base == SCANNER and name == "scan" and args:
      self.scanned.append(args[0])
      toks = Tup(tuple(Tup((ttype(i), spell(i))) for i in range(len(self.breaks))))
      return [(st, Tup((toks, C(self.remainder))))]
    if base == TEXT:
      if name == "startswith" and args == [C(BOM)]:
        return [(st, C(self.bom))]
    if name == "encode":
      return self.encode(st, base, args, kwargs)
    b = self.has_break(base)
    if b is not None:
      nl = args and args[0] == C("\n")
      if name == "count" and nl and len(args) == 1:
        return [(st, term("nl", base) if b else C(0))]
      if name in ("rfind", "rindex") and nl and len(args) == 1 and (b or name == "rfind"):
        return [(st, U(("bin", "Sub", U(("bin", "Sub", term("len", base), term("tail", base))), C(1))) if b else C(-1))]
      if name in ("rsplit", "split", "rpartition") and nl:
        tail = U(("tail", base)) if b else base
        head = U(("head", base))
        if name == "rpartition":
          return [(st, Tup((head, C("\n"), tail) if b else (C(""), C(""), base)))]
        if not b:
          return [(st, Tup((base,)))]
        if name == "rsplit" and len(args) == 2 and args[1] == C(1):
          return [(st, Tup((head, tail)))]
        if len(args) == 1:
          return [(st, U(("lines", base)))]     # as many as breaks, and one
    return TextPlugin.on_method(self, st, base, name, args, kwargs, node)

  def on_subscript(self, st, base, idx, node):
    base = self.interp.resolve(st, base)
    if base == Ext("sys.version_info"):
      return [(st, C((3, 12)[idx.v]))] if isinstance(idx, C) and idx.v in (0, 1) else None
    if base == TEXT:
      if idx == C(0):
        if self.empty:
          return [(st, Sig("raise", ExcV("IndexError", NONE)))]
        return [(st, C(BOM) if self.bom else U(("first-char",)))]
      s = self.slice_of(idx, node)
      if self.empty and s is not None and "?" not in s:
        return [(st, C(""))]
      if s == (0, 1):
        return [(st, C(BOM) if self.bom else U(("first-char",)))]
      if s == (1, None):
        return [(st, REST)]
    if isinstance(base, U) and base.key[0] == "lines" and idx == C(-1):
      return [(st, U(("tail", base.key[1])))]
    return TextPlugin.on_subscript(self, st, base, idx, node) if hasattr(TextPlugin, "on_subscript") else None

  def slice_of(self, idx, node):
    s = node.slice if isinstance(node, ast.Subscript) else None
    if isinstance(s, ast.Slice) and s.step is None:
      def const(x, d):
        return d if x is None else x.value if isinstance(x, ast.Constant) else "?"
      return (const(s.lower, 0), const(s.upper, None))
    return None

  def on_compare(self, st, op, a, b, node):
    a, b = self.interp.resolve(st, a), self.interp.resolve(st, b)
    if isinstance(op, (ast.In, ast.NotIn)) and a == C("\n") and self.has_break(b) is not None:
      return [(st, self.has_break(b) == isinstance(op, ast.In))]
    if isinstance(op, (ast.Eq, ast.NotEq)) and U(("first-char",)) in (a, b) and C(BOM) in (a, b):
      return [(st, isinstance(op, ast.NotEq))]     # a text without the mark
    # a number of line breaks (at least one where it is not 0) plus a constant
    fa, fb = linear(a), linear(b)
    if fa is None or fb is None:
      return None
    d = dict(fa)
    for k, c in fb.items():
      d[k] = d.get(k, 0) - c
    const = d.pop(1, 0)
    d = {k: c for k, c in d.items() if c}
    if len(d) != 1:
      return None
    (k, c), = d.items()
    if c < 0:
      op = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE}.get(type(op), type(op))()
      const = -const
    if not (isinstance(k, U) and k.key[:2] == ("measure", "nl")) or abs(c) != 1:
      return None
    least = 1 + const          # the value is least, or anything above
    r = {ast.Gt: (True if least > 0 else None), ast.GtE: (True if least >= 0 else None),
         ast.Lt: (False if least >= 0 else None), ast.LtE: (False if least > 0 else None),
         ast.Eq: (False if least > 0 else None), ast.NotEq: (True if least > 0 else None)}.get(type(op))
    return None if r is None else [(st, r)]

  def on_truth(self, st, val, node):
    if self.empty and val == TEXT:
      return [(st, False)]
    if isinstance(val, U) and val.key[:2] == ("measure", "nl"):
      return [(st, True)]
    return None


def linear(v):
  """{atom: coefficient} of an integer term; None if it is not one."""
  if isinstance(v, C):
    return {1: v.v} if isinstance(v.v, int) and v.v else {} if isinstance(v.v, int) else None
  if isinstance(v, U) and v.key[0] == "bin" and v.key[1] in ("Add", "Sub"):
    a, b = linear(v.key[2]), linear(v.key[3])
    if a is None or b is None:
      return None
    out = dict(a)
    for k, c in b.items():
      out[k] = out.get(k, 0) + (c if v.key[1] == "Add" else -c)
    return {k: c for k, c in out.items() if c}
  if isinstance(v, U):
    return {v: 1}
  return None


def describe(f):
  if f is None:
    return "something that is no sum"
  names = {"nl": "number of line breaks in", "len": "length of", "tail": "length behind the last line break of",
           "u8": "utf-8 length of"}
  out = []
  for k, c in sorted(f.items(), key=lambda x: str(x[0])):
    if k == 1:
      out.append(str(c))
    else:
      d = "%s text %s" % (names[k.key[1]], k.key[2].key[1]) if isinstance(k, U) and k.key[0] == "measure" and \
          k.key[2].key[0] == "spelling" else show(k)
      out.append(("" if c == 1 else "%s * " % c) + d)
  return " + ".join(out) or "0"


class Run:
  """Outcome of interpreting tokenize() once."""

  def __init__(self, model, bom, breaks, remainder="", empty=False):
    self.plugin = LexPlugin(model, bom, breaks, remainder)
    self.plugin.empty = empty
    info = model.function(TOKENIZE)
    if not info.params:
      raise AnchorError("tokenize() takes no text")

    def setup(st):
      pass
    from .absint import Interp, State
    it = Interp(model, self.plugin)
    st = State()
    st.p = self.plugin.initial()
    st.frames[0] = {"$mod": ModV(info.mod)}
    st.cur = 0
    args = [TEXT] + [U(("arg", p)) for p in info.params[1:]]
    n = len(info.node.args.defaults)
    if n:
      args = args[:max(1, len(info.params) - n)]
    self.interp = it
    self.results = it.inline(st, FnV(info, None), args, {}, info.node)
    self.bom, self.breaks = bom, breaks

  def tokens(self, st, v):
    """[(class ok, {attr: value})] of a returned list."""
    out = []
    for x in self.interp.expand(st, v):
      x = self.interp.resolve(st, x)
      o = st.heap.get(x) if isinstance(x, Ref) else None
      if not isinstance(o, Inst) or not isinstance(o.klass, Klass) or o.klass.qual != TOKEN:
        out.append(None)
        continue
      out.append({k: self.interp.resolve(st, a) for k, a in o.attrs.items()})
    return out

  def location(self, st, v):
    """(line, col, offset) of a location value, as linear forms."""
    v = self.interp.resolve(st, v)
    if isinstance(v, Ref):
      o = st.heap.get(v)
      if isinstance(o, (Inst,)):
        got = []
        for n in ("line", "col", "offset"):
          if n not in o.attrs:
            return None
          got.append(linear(self.interp.resolve(st, o.attrs[n])))
        return tuple(got)
      return None
    if not isinstance(v, Tup):
      return None
    loc = self.plugin.loc
    got = []
    for k, n in enumerate(("line", "col", "offset")):
      val = v.items[k] if k < len(v.items) else None
      if loc is not None:
        _, fn = loc.lookup(n)
        if fn is not None:
          rs = self.interp.inline(st.copy(), FnV(fn, None), [v], {}, fn.node)
          vals = [x for _, x in rs]
          if len(vals) != 1 or isinstance(vals[0], Sig):
            return None
          val = vals[0]
      if val is None:
        return None
      got.append(linear(self.interp.resolve(st, val)))
    return tuple(got)
