"""C23: comment markup loses nothing.

markup.parse() is interpreted abstractly on symbolic lines: each test of a line
against a pattern forks, and what a match delivers is the group of that line.
The items are then given to markup.format_items(), and the lines it returns are
read back: they must hold, in order, every input line, or all of a match of it
but a list marker or a fence, the marker being written anew.  The patterns are
decided as languages: what no delivered group covers may be only white space
and a marker.  Three lines from the initial state reach every state of the
reader with every kind of line in it."""
import ast
import itertools
import math
import re

from ..absint import (C, U, E, Ref, Inst, Lst, Dct, Tup, Sig, NONE, TRUE, FALSE, Many, ModV, Ext, ExcV, BM,
                      ClsV, FnV, Interp, show)
from ..cli import mentions
from ..confmodel import ConfModel
from ..model import AnchorError, Klass
from ..regexauto import sre, K, Program, Unsupported, classes, START, END
from ..textdom import TextPlugin, text, parts, is_text

MARKUP = "cmakelang.markup"
FMT = "cmakelang.format.formatter"
WRAP = "cmakelang.common.stable_wrap"
WIDTH = U(("width",))
WIDE = 1000


# ---------------------------------------------------------------- languages
def included(one, two):
  """A shortest string matched entirely by regex one, but not by two; None if
  there is none.  Patterns are parsed trees (lists) or texts."""
  progs = []
  for x in (one, two):
    p = Program()
    p.names = ["r"]
    if isinstance(x, str):
      tree = sre.parse(x)
      p.flags = tree.state.flags if hasattr(tree, "state") else tree.pattern.flags
      items = list(tree)
    else:
      p.flags = re.UNICODE
      items = list(x)
    p.starts = [p.seq(items, p.emit("end"))]
    progs.append(p)
  a, b = progs
  alpha = classes(a, b)

  def step(p, pcs, prev, nxt):
    seen, out, found, todo = set(), set(), False, list(pcs)
    while todo:
      pc = todo.pop()
      if pc in seen:
        continue
      seen.add(pc)
      i = p.ins[pc]
      if i[0] == "char":
        if nxt in i[1]:
          out.add(i[2])
      elif i[0] == "split":
        todo.extend(i[1])
      elif i[0] == "look":
        c = nxt if i[1] == 1 else prev
        if (c >= 0 and c in i[3]) != i[2]:
          todo.append(i[4])
      elif nxt == END:
        found = True
    return frozenset(out), found

  todo = [(frozenset(a.starts), frozenset(b.starts), START, "")]
  seen = set()
  while todo:
    nxt = []
    for sa, sb, prev, w in todo:
      _, fa = step(a, sa, prev, END)
      _, fb = step(b, sb, prev, END)
      if fa and not fb:
        return w
      for c in alpha:
        na, _ = step(a, sa, prev, c)
        if not na:
          continue
        nb, _ = step(b, sb, prev, c)
        k = (na, nb, c)
        if k not in seen:
          seen.add(k)
          nxt.append((na, nb, c, w + chr(c)))
    if len(seen) > 20000:
      raise Unsupported("too many states")
    todo = nxt
  return None


def strip_anchors(items):
  items = list(items)
  while items and items[0][0] is K.AT:
    items.pop(0)
  return items


class Pattern:
  """A pattern as a sequence of pieces, each a group or not."""

  def __init__(self, txt):
    self.txt = txt
    self.items = list(sre.parse(txt))

  def pieces(self):
    """[(group number or None, items)], whether the end of the line is
    reached."""
    out = []
    for op, av in self.items:
      if op is K.AT:
        out.append((None, [(op, av)]))
      elif op is K.SUBPATTERN and av[0] is not None:
        out.append((av[0], list(av[3])))
      else:
        out.append((None, [(op, av)]))
    return out

  def bounded(self):
    """Does a match reach the end of the line?"""
    if not self.items:
      return False
    op, av = self.items[-1]
    if op is K.AT and av in (K.AT_END, K.AT_END_STRING):
      return True
    if op is K.SUBPATTERN and av[3]:
      op, av = list(av[3])[-1]
    return op is K.MAX_REPEAT and av[1] is K.MAXREPEAT and list(av[2]) == [(K.ANY, None)]

  def rest(self, used):
    """What lies before the first, between, and behind the last used group."""
    ps = [(g, its) for g, its in self.pieces() if not (len(its) == 1 and its[0][0] is K.AT)]
    at = [i for i, (g, _) in enumerate(ps) if g in used]
    if not at:
      return [x for _, its in ps for x in its], [], []
    flat = lambda r: [x for _, its in r for x in its]
    mid = []
    for a, b in zip(at, at[1:]):
      mid += flat(ps[a + 1:b])
    return flat(ps[:at[0]]), mid, flat(ps[at[-1] + 1:])

  def first(self, used):
    for g, its in self.pieces():
      if g in used:
        return its
    return []

  def finite(self, g):
    """The texts of a group of a single character class, or None."""
    for n, its in self.pieces():
      if n == g:
        if len(its) == 1 and its[0][0] in (K.LITERAL, K.IN):
          op, av = its[0]
          if op is K.LITERAL:
            return {chr(av)}
          if all(o is K.LITERAL for o, _ in av):
            return {chr(a) for _, a in av}
        return None
    return None

  def like(self, *words):
    return all(re.match(self.txt, w) for w in words)

  @property
  def kind(self):
    if self.like("~~~", "````", "```python") and not self.like("plain words"):
      return "fence"
    if self.like("------", "=== a ===") and not self.like("plain words"):
      return "ruler"
    if self.like("TODO(josh): x", "NOTE(a):") and not self.like("plain words"):
      return "note"
    return "other"


# ------------------------------------------------------------------ interpreter
def line(i):
  return U(("line", i))


PURE = {"math.log": math.log, "math.ceil": math.ceil, "math.floor": math.floor, "math.log10": math.log10,
        "int": int, "max": max, "min": min, "abs": abs, "round": round, "pow": pow, "float": float}
STRMETHODS = {"strip", "lstrip", "rstrip", "expandtabs", "startswith", "format"}


class P(TextPlugin):
  CONCRETE = True

  def __init__(self, mods, conf):
    TextPlugin.__init__(self, inline_mods=mods)
    self.conf = conf
    self.problems = []
    self.script = None      # a text each line resembles

  # -- values
  def pattern_of(self, st, v):
    """Texts of the pattern v was compiled from: [(state, text)]."""
    v = self.res(st, v)
    if isinstance(v, U) and v.key[0] == "glob":
      mod = self.interp.model.modules.get(v.key[1])
      binds = [b for b in mod.bind.get(v.key[2], []) if b[0] == "assign"] if mod else []
      if len(binds) == 1 and isinstance(binds[0][1], ast.Assign):
        c = binds[0][1].value
        if isinstance(c, ast.Call) and len(c.args) == 1 and not c.keywords and \
            self.interp.const_expr(mod, c.func) == Ext("re.compile"):
          p = self.interp.const_expr(mod, c.args[0])
          if isinstance(p, C) and isinstance(p.v, str):
            return [(st, p.v)]
      raise AnchorError("the pattern of %s is no constant" % show(v))
    if isinstance(v, U) and v.key[0] == "regex":
      return self.spell(st, v.key[1])
    if isinstance(v, C) and isinstance(v.v, str):
      return [(st, v.v)]
    raise AnchorError("no pattern: %s" % show(v))

  def spell(self, st, v):
    """The texts a symbolic pattern can have, the texts of groups drawn from
    their language."""
    outs = [(st, "")]
    for p in parts(v):
      nxt = []
      for s, t in outs:
        for s2, x in self.choices(s, p):
          nxt.append((s2, t + x))
      outs = nxt
    return outs

  def choices(self, st, p):
    p = self.res(st, p)
    if isinstance(p, C):
      return [(st, str(p.v))]
    esc = lambda t: t
    if isinstance(p, U) and p.key[0] == "reescape":
      p, esc = p.key[1], re.escape
    if isinstance(p, U) and p.key[0] == "grp":
      if self.like(p) is not None:
        return [(st, esc(self.like(p)))]
      vals = Pattern(p.key[2]).finite(p.key[3])
      if vals is not None:
        out = []
        for x in sorted(vals):
          s2 = st.copy()
          if self.interp.restrict(s2, p, frozenset([C(x)]), True):
            out.append((s2, esc(x)))
        return out
      its = [i for g, i in Pattern(p.key[2]).pieces() if g == p.key[3]]
      if its and included(its[0], r"\s*") is None:
        return [(st, "  ")]         # no white space is special in a pattern
    raise AnchorError("a pattern is made of %s" % show(p))

  def domain(self, st, u):
    if u.key[0] == "grp":
      vals = Pattern(u.key[2]).finite(u.key[3])
      if vals is not None:
        return ("in", frozenset(C(x) for x in vals))
    return TextPlugin.domain(self, st, u)

  # -- calls
  def on_inline(self, st, info, args, kwargs, node):
    if info.qual == WRAP:
      t = args[1] if len(args) > 1 else kwargs["paragraph_text"]
      w = self.res(st, args[0] if args else kwargs["wrapper"])
      self.wrapper(st, w, node)
      return [(st, self.interp.alloc(st, self.interp.site(st, node, "wrap"),
                                     Lst([U(("wrap", self.res(st, t), k)) for k in range(3)])))]
    return TextPlugin.on_inline(self, st, info, args, kwargs, node)

  def shared(self, v):
    """The items of a module level dictionary."""
    mod = self.interp.model.modules.get(v.key[1]) if isinstance(v, U) and v.key[0] == "glob" else None
    binds = [b for b in mod.bind.get(v.key[2], []) if b[0] == "assign"] if mod else []
    if len(binds) == 1 and isinstance(binds[0][1], ast.Assign):
      n = binds[0][1].value
      if isinstance(n, ast.Call) and not n.args and self.interp.const_expr(mod, n.func) == Ext("dict"):
        items = [(k.arg, k.value) for k in n.keywords]
      elif isinstance(n, ast.Dict):
        items = [(k.value if isinstance(k, ast.Constant) else None, x) for k, x in zip(n.keys, n.values)]
      else:
        items = [(None, n)]
      if all(k for k, _ in items):
        return {k: self.interp.const_expr(mod, x) or U(("unknown", k)) for k, x in items}
    raise AnchorError("options of the wrapper: %s" % show(v))

  SAFE = {"width", "expand_tabs", "replace_whitespace", "drop_whitespace", "fix_sentence_endings", "tabsize"}

  def wrapper(self, st, w, node):
    if not (isinstance(w, U) and w.key[0] == "wrapper"):
      raise AnchorError("text is wrapped by %s" % show(w))
    opts = dict(w.key[1:])
    for k in ("break_long_words", "break_on_hyphens"):
      if opts.pop(k, TRUE) != FALSE:
        self.problems.append(("whole words", k, self.interp.where(st, node),
                              "the wrapper of comments has %s, which parts words" % k))
    for k in ("initial_indent", "subsequent_indent"):
      v = opts.pop(k, C(""))
      if not (isinstance(v, C) and v.v == ""):
        raise AnchorError("comments are wrapped with %s" % k)
    for k, v in opts.items():
      if k not in self.SAFE and v != NONE:
        self.problems.append(("whole text", k, self.interp.where(st, node),
                              "the wrapper of comments has %s, which may drop text" % k))

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, Ext):
      n = f.name
      if n == "re.compile":
        if len(args) > 1 or kwargs:
          raise AnchorError("a pattern of comments is compiled with flags")
        return [(st, U(("regex", self.res(st, args[0]))))]
      if n == "re.escape" and len(args) == 1:
        v = self.res(st, args[0])
        return [(st, C(re.escape(v.v)) if isinstance(v, C) else U(("reescape", v)))]
      if n in ("re.match", "re.fullmatch") and len(args) == 2:
        return self.match(st, args[0], args[1], node, n.split(".")[1])
      if n == "textwrap.TextWrapper":
        names = ["width", "initial_indent", "subsequent_indent"]
        kw = dict(zip(names, args))
        kw.update(kwargs)
        star = self.res(st, kw.pop("**", NONE))
        if star != NONE:
          for k, v in self.shared(star).items():
            kw.setdefault(k, v)
        return [(st, U(("wrapper",) + tuple((k, self.res(st, v)) for k, v in sorted(kw.items()))))]
      if n == "len" and len(args) == 1:
        v = self.res(st, args[0])
        if is_text(v) and not isinstance(v, C) or isinstance(v, U) and v.key[0] in ("grp", "line"):
          return [(st, U(("len", v)))]
      if n == "range" and args:
        vs = [self.res(st, a) for a in args]
        if all(isinstance(v, C) for v in vs) and len(range(*[v.v for v in vs])) <= 300:
          return [(st, Tup(tuple(C(i) for i in range(*[v.v for v in vs]))))]
      if n in PURE and args and not kwargs:
        vs = [self.res(st, a) for a in args]
        if all(isinstance(v, C) and isinstance(v.v, (int, float)) for v in vs):
          try:
            return [(st, C(PURE[n](*[v.v for v in vs])))]
          except (ValueError, ZeroDivisionError) as ex:
            return [(st, Sig("raise", ExcV(type(ex).__name__, NONE)))]
      if n == "str" and len(args) == 1:
        return [(st, text([self.res(st, args[0])]))]
    base = name = None
    if isinstance(f, U) and f.key[0] == "attr":
      base, name = self.res(st, f.key[1]), f.key[2]
    elif isinstance(f, BM):
      base, name = self.res(st, f.base), f.name
    if name in ("match", "fullmatch") and isinstance(base, U) and base.key[0] in ("glob", "regex") and len(args) == 1:
      return self.match(st, base, args[0], node, name)
    if name in STRMETHODS and isinstance(base, U):
      r = self.str_method(st, base, name, args, kwargs)
      if r is not None:
        return [(st, r)]
    if isinstance(base, U) and base.key[0] == "m":
      if name == "group":
        out = [self.group(st, base, self.res(st, a)) for a in (args or [C(0)])]
        return [(st, out[0] if len(out) == 1 else Tup(tuple(out)))]
      if name == "groups" and not args:
        n = re.compile(base.key[2]).groups
        return [(st, Tup(tuple(self.group(st, base, C(i + 1)) for i in range(n))))]
      if name == "groupdict":
        raise AnchorError("groups by name")
    return TextPlugin.on_call(self, st, f, args, kwargs, node)

  def group(self, st, m, i):
    if not isinstance(i, C):
      raise AnchorError("group %s of a match" % show(i))
    n = i.v
    if isinstance(n, str):
      n = re.compile(m.key[2]).groupindex[n]
    if n == 0:
      return m.key[1]
    return U(("grp", m.key[1], m.key[2], n))

  def match(self, st, rx, v, node, how):
    v = self.res(st, v)
    v = v if isinstance(v, C) else bare(v)
    out = []
    for s, t in self.pattern_of(st, rx):
      if isinstance(v, C):
        if re.match(t, v.v):
          raise AnchorError("a constant is matched")
        out.append((s, NONE))
        continue
      u = U(("matches", v, t))
      like = self.like(v)
      if like is not None:
        s.truth.setdefault(u, bool(re.match(t, like)))
      for s2, b in self.interp.fork_fact(s, u, node):
        if b:
          s2.truth[nonblank(v)] = s2.truth.get(nonblank(v), True)
        out.append((s2, U(("m", v, t)) if b else NONE))
    return out

  def like(self, v):
    """The text v resembles, where lines are scripted."""
    v = bare(v)
    if self.script is None or not isinstance(v, U):
      return None
    if v.key[0] == "line":
      return self.script[v.key[1]]
    if v.key[0] == "grp":
      t = self.like(v.key[1])
      m = re.match(v.key[2], t) if t is not None else None
      return m.group(v.key[3]) if m else None
    if v.key[0] == "stripc" and isinstance(v.key[2], C):
      t = self.like(v.key[1])
      return getattr(t.strip(), v.key[3])(v.key[2].v) if t is not None else None
    return None

  def on_truth(self, st, v, node):
    if isinstance(v, U) and v.key[0] == "m":
      return [(st, True)]
    like = self.like(v)
    if like is not None:
      st.truth.setdefault(nonblank(v) if v.key[0] != "stripc" else v, bool(like.strip()))
    if isinstance(v, U) and v.key[0] in ("line", "grp", "ws", "tail", "text"):
      return self.interp.fork_fact(st, nonblank(v), node) if nonblank(v) != v else None
    if isinstance(v, U) and v.key[0] == "text" and any(isinstance(x, C) and x.v for x in v.key[1:]):
      return [(st, True)]
    return TextPlugin.on_truth(self, st, v, node)

  def on_subscript(self, st, base, idx, node):
    b = base
    if isinstance(b, U) and b.key[0] in ("line", "grp", "ws"):
      if isinstance(idx, U) and idx.key[0] == "slice":
        lo, hi, step = idx.key[1:]
        if lo in (C(1), ) and hi == NONE and step == NONE and self.starts_blank(st, b):
          return [(st, U(("ws", "tail", b)))]
        if lo == NONE and isinstance(hi, C) and step == NONE:
          return [(st, U(("head", b, hi)))]
      if idx == C(0):
        return [(st, U(("char0", b)))]
    return TextPlugin.on_subscript(self, st, base, idx, node)

  def starts_blank(self, st, b):
    return any(st.truth.get(u) is True for u in (U(("blank0", b)), U(("startswith", b, C(" ")))))

  def on_compare(self, st, op, a, b, node):
    if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, U) and a.key[0] in ("char0", "head") and b == C(" "):
      u = U(("blank0", a.key[1]))
      like = self.like(a.key[1])
      if like is not None:
        st.truth.setdefault(u, like[:1] == " ")
      return [(s, t == isinstance(op, ast.Eq)) for s, t in self.interp.fork_fact(st, u, node)]
    if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and NONE in (a, b) and U(("conf",)) in (a, b):
      return [(st, isinstance(op, (ast.IsNot, ast.NotEq)))]
    for x, y, less in ((a, b, (ast.Lt, ast.LtE)), (b, a, (ast.Gt, ast.GtE))):
      if isinstance(y, C) and isinstance(y.v, (int, float)) and mentions(x, lambda z: z == WIDTH) and \
          isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
        return [(st, not isinstance(op, less))]     # lines are wide
    return TextPlugin.on_compare(self, st, op, a, b, node)

  def str_method(self, st, base, name, args, kwargs):
    base = self.res(st, base)
    vs = [self.res(st, a) for a in args]
    if not isinstance(base, C):
      if name in ("strip", "lstrip", "rstrip"):
        if not vs or vs == [NONE] or isinstance(vs[0], C) and not vs[0].v.strip():
          return U(("ws", name, base))
        return U(("stripc", base, vs[0], name))
      if name == "expandtabs":
        return U(("ws", name, base))
      if name == "startswith" and vs and isinstance(vs[0], C):
        like = self.like(base)
        if like is not None:
          st.truth.setdefault(U(("startswith", base, vs[0])), like.startswith(vs[0].v))
        return U(("startswith", base, vs[0]))
      if name == "format" and is_text(base):
        r = template(base, vs, {k: self.res(st, v) for k, v in kwargs.items()})
        if r is not None:
          return r
    return TextPlugin.str_method(self, st, base, name, args, kwargs)

  def on_method(self, st, base, name, args, kwargs, node):
    base = self.res(st, base)
    if isinstance(base, U) and base.key[0] in ("line", "grp", "ws", "text", "wrap", "stripc") or \
        isinstance(base, C) and isinstance(base.v, str):
      r = self.str_method(st, base, name, args, kwargs)
      if r is not None:
        return [(st, r)]
    return TextPlugin.on_method(self, st, base, name, args, kwargs, node)

  def on_binop(self, st, op, a, b, node):
    if isinstance(op, ast.Pow) and all(isinstance(x, C) and isinstance(x.v, int) and 0 <= x.v < 20 for x in (a, b)):
      return [(st, C(a.v ** b.v))]
    if isinstance(op, ast.Mult):
      for x, y in ((a, b), (b, a)):
        if isinstance(x, C) and isinstance(x.v, str) and not isinstance(y, C):
          return [(st, U(("rep", x, y)))]
    if isinstance(op, ast.Add) and any(isinstance(x, U) and x.key[0] in (
        "line", "grp", "ws", "text", "wrap", "stripc", "rep", "conf") or isinstance(x, C) and isinstance(x.v, str)
        for x in (a, b)) and not (isinstance(a, C) and isinstance(b, C)):
      return [(st, text([a, b]))]
    if isinstance(op, ast.Mod) and isinstance(a, C) and isinstance(a.v, str):
      items = list(b.items) if isinstance(b, Tup) else [b]
      bits = re.split(r"%[sdr]", a.v)
      if len(bits) == len(items) + 1 and not any("%" in x for x in bits):
        ps = [C(bits[0])]
        for x, t in zip(items, bits[1:]):
          ps += [self.res(st, x), C(t)]
        return [(st, text(ps))]
    return TextPlugin.on_binop(self, st, op, a, b, node)

  def on_attr(self, st, base, name, node):
    b = self.res(st, base)
    if isinstance(b, U) and b.key[0] == "conf":
      d = self.conf.get(b.key[1:] + (name,))
      if isinstance(d, str) and name.endswith("_pattern"):
        return [(st, C(d))]
      return [(st, U(b.key + (name,)))]
    return TextPlugin.on_attr(self, st, base, name, node)


def template(base, args, kwargs):
  """Format a template with unknown parts."""
  txt, unknown = "", []
  for p in parts(base):
    if isinstance(p, C):
      txt += str(p.v)
    else:
      txt += chr(0xe000 + len(unknown))
      unknown.append(p)
  import string
  out, auto = [], 0
  try:
    toks = list(string.Formatter().parse(txt))
  except ValueError:
    return None
  def lit(t):
    for ch in t:
      i = ord(ch) - 0xe000
      out.append(unknown[i] if 0 <= i < len(unknown) else C(ch))
  for t, field, spec, _ in toks:
    lit(t)
    if field is None:
      continue
    if field == "":
      field, auto = str(auto), auto + 1
    v = args[int(field)] if field.isdigit() and int(field) < len(args) else kwargs.get(field)
    if v is None:
      return None
    out.append(v if not spec else U(("fmtspec", spec, v)))
  return text(out)


def bare(v):
  """A value without the stripping of white space at its ends."""
  if isinstance(v, U) and v.key[0] == "ws":
    return bare(v.key[2]) if v.key[1] != "tail" else U(("ws", "tail", bare(v.key[2])))
  if isinstance(v, U) and v.key[0] == "grp":
    return U(("grp", bare(v.key[1])) + v.key[2:])
  if isinstance(v, U) and v.key[0] == "text" and len(v.key) == 2:
    return bare(v.key[1])
  return v


def nonblank(v):
  v = bare(v)
  if isinstance(v, U) and v.key[0] in ("line", "grp"):
    return U(("nonblank", v))
  return v


# ------------------------------------------------------------------ reading back
def flat(v):
  """Pieces of a text: atoms (line or group), strings, and other values."""
  if isinstance(v, C):
    return [str(v.v)] if v.v != "" else []
  if isinstance(v, U):
    if v.key[0] == "text":
      return [x for p in v.key[1:] for x in flat(p)]
    if v.key[0] == "ws" and v.key[1] != "tail":
      return flat(v.key[2])
    if v.key[0] in ("grp", "ws"):
      return [bare(v)]
    if v.key[0] == "join":
      return None
  return [v]


def is_atom(v):
  return isinstance(v, U) and v.key[0] in ("line", "grp")


def has_line(v):
  return mentions(v, lambda z: isinstance(z, U) and z.key[0] == "line")


def src(v):
  while isinstance(v, U) and v.key[0] in ("grp", "ws", "stripc", "tail"):
    v = v.key[2] if v.key[0] == "ws" else v.key[1]
  return v.key[1]


class Chunk:
  """One output line, or the lines of one wrapped text."""

  def __init__(self, lead, atoms, kind, seps=True):
    self.lead, self.atoms, self.kind, self.seps = lead, atoms, kind, seps


class Reader:
  """Reads lines back into chunks."""

  def __init__(self, report):
    self.report = report

  def read(self, lines):
    out, k = [], 0
    while k < len(lines):
      ps = flat(lines[k])
      w = [i for i, p in enumerate(ps) if isinstance(p, U) and p.key[0] == "wrap"]
      if w:
        if len(w) > 1 or w[0] != len(ps) - 1:
          self.report("lines", "text follows a wrapped line on the same line")
          return None
        t = ps[w[0]]
        if t.key[2] != 0:
          self.report("lines", "the first line of a wrapped text is not written")
          return None
        for n in (1, 2):
          k += 1
          qs = flat(lines[k]) if k < len(lines) else []
          if not qs or qs[-1] != U(("wrap", t.key[1], n)) or not all(blank(q) for q in qs[:-1]):
            self.report("lines", "the lines of a wrapped text are not all written, in order")
            return None
        lead = ps[:-1]
        atoms, seps = self.atoms(flat(t.key[1]))
        out.append(Chunk(lead, atoms, "wrap", seps))
      else:
        lead, body = [], []
        for p in ps:
          (body if body or is_atom(p) or has(p) else lead).append(p)
        atoms, seps = self.atoms(body)
        if atoms is None:
          return None
        out.append(Chunk(lead, atoms, "raw", seps))
      k += 1
    return out

  def atoms(self, ps):
    out, sep = [], True
    good = True
    for p in ps:
      if isinstance(p, str):
        if p.strip():
          out.append(p)
        if p[-1:].isspace() or p.isspace():
          sep = True
      else:
        if not sep:
          good = False
        out.append(p)
        sep = False
    return out, good


def has(p):
  return isinstance(p, U) and has_line(p)


def blank(p):
  if isinstance(p, str):
    return not p.strip()
  return isinstance(p, U) and p.key[0] == "rep" and isinstance(p.key[1], C) and not p.key[1].v.strip()


def marker(lead):
  """Is there something but white space, parted from what follows?"""
  some = [p for p in lead if not blank(p)]
  return bool(some) and bool(lead) and (blank(lead[-1]) or isinstance(lead[-1], str) and lead[-1][-1:].isspace())


LIST = r"\s*([*+-]|\d+[.:)])"
FENCE = r"\s*([`~]{3}[`~]*)"


class Judge:
  """Compares the output of one path with its input."""

  def __init__(self, ctx, st, n, where):
    self.ctx, self.st, self.n, self.where = ctx, st, n, where
    self.bad = []

  def add(self, rule, msg):
    self.bad.append((rule, msg))

  def fact(self, kind, v):
    """Did a pattern of a kind match v on this path?"""
    r = None
    for u, t in self.st.truth.items():
      if isinstance(u, U) and u.key[0] == "matches" and u.key[1] == v and \
          self.kind(u.key[2]) == kind:
        if t:
          return True
        r = False
    return r

  def blank(self, v):
    return self.st.truth.get(nonblank(v)) is False

  def expected(self):
    """What the output must hold: ("fence",) ("blank",) ("verb", value)
    ("ruler", value) ("text", value, starts a block)."""
    out, verb, inlist, prev = [], False, False, None
    for i in range(self.n):
      v = line(i)
      if self.fact("fence", v):
        out.append(("fence", v))
        verb = not verb
        inlist = False
        prev = None
        m = [u for u, t in self.st.truth.items() if t and u.key[0] == "matches" and u.key[1] == v
             and Pattern(u.key[2]).kind == "fence"][0]
        v = U(("grp", v, m.key[2], re.compile(m.key[2]).groups))
        if self.blank(v):
          continue
      if verb:
        out.append(("verb", v))
        continue
      if self.blank(v):
        out.append(("blank", v))
        inlist, prev = False, None
        continue
      if self.fact("ruler", v):
        out.append(("ruler", v))
        inlist, prev = False, None
        continue
      lst = self.list_match(v)
      if lst and not inlist:
        inlist = prev is None
      out.append(("text", v, bool(self.fact("note", v)) and not inlist or prev is None))
      prev = "text"
    return out

  def list_match(self, v):
    return [u for u, t in self.st.truth.items() if t and isinstance(u, U) and u.key[0] == "matches"
            and u.key[1] == v and self.kind(u.key[2]) == "other"]

  def kind(self, txt):
    if txt == RULERP[0]:
      return "ruler"
    return Pattern(txt).kind

  def value(self, want, got):
    """Do the atoms deliver a line?  -> (dropped marker or None)."""
    if got == [want]:
      return True, None
    if got and all(isinstance(g, U) and g.key[0] == "grp" and g.key[1] == want for g in got):
      txt = got[0].key[2]
      if any(g.key[2] != txt for g in got):
        return False, None
      used = [g.key[3] for g in got]
      if used != sorted(set(used)):
        return False, None
      return self.parts(txt, tuple(used))
    return False, None

  def parts(self, txt, used):
    k = (txt, used)
    if k not in MEMO:
      p = Pattern(txt)
      pre, mid, post = p.rest(used)
      ok, mark = True, None
      if not p.bounded() or included(mid, r"\s*") is not None or included(post, r"\s*") is not None:
        ok = False
      elif included(pre, r"\s*") is not None:
        w = included(pre, LIST)
        mark = "list"
        if w is not None:
          w2 = included(pre, FENCE)
          mark = "fence"
          if w2 is not None:
            ok, mark = False, w
        if ok and mark == "list" and included(p.first(used), r"(\s(.|\n)*)?") is not None:
          ok, mark = False, "no white space behind a list marker"
      MEMO[k] = (ok, mark)
    return MEMO[k]

  def judge(self, chunks):
    exp = self.expected()
    # what the chunks deliver, as a stream
    stream = []
    for c in chunks:
      if not c.seps:
        self.add("parted", "two lines are joined without white space between them")
      if not c.atoms:
        lead = [p for p in c.lead if not blank(p)]
        if not lead:
          stream.append(("blank", None, c, True))
        elif len(lead) == 1 and isinstance(lead[0], str) and Pattern(FENCEP[0]).txt and re.match(FENCEP[0], lead[0]):
          stream.append(("fence", None, c, True))
        elif len(lead) == 1 and isinstance(lead[0], U) and lead[0].key[0] == "rep" and lead[0].key[1] == C("#"):
          stream.append(("hash", None, c, True))
        else:
          stream.append(("other", lead, c, True))
        continue
      if any(isinstance(a, str) for a in c.atoms):
        self.add("words", "text which is not in the comment is written between its words")
        return
      # group the atoms by their line
      for n, (s, g) in enumerate(itertools.groupby(c.atoms, key=src)):
        stream.append(("atoms", list(g), c, n == 0))
    pos = 0
    for e in exp:
      v = e[1]
      what = self.describe(e)
      if e[0] == "blank":
        if pos < len(stream) and stream[pos][0] == "blank":
          pos += 1
        elif pos == 0 or stream[pos - 1][0] != "blank":
          self.add("blank lines", "no blank line is left of %s" % what)
          return
        continue
      if pos >= len(stream):
        self.add("every line", "%s is not written" % what)
        return
      kind, got, c, first = stream[pos]
      pos += 1
      if e[0] == "fence":
        if kind != "fence":
          self.add("every line", "%s is not written as a fence" % what)
          return
        continue
      if kind == "hash" and e[0] == "ruler":
        if self.st.truth.get(U(("stripc", v, C("#"), "strip"))) is not False and \
            not any(t is False and u.key[0] == "stripc" and u.key[2] == C("#") and src(u) == src(v)
                    for u, t in self.st.truth.items() if isinstance(u, U)):
          self.add("every line", "%s is replaced by hash characters" % what)
        continue
      if kind != "atoms":
        self.add("every line", "%s is not written" % what)
        return
      want = v
      got = [g for g in got]
      if got == [want]:
        mark = None
      elif e[0] == "verb" and got == [U(("ws", "tail", want))]:
        mark = None
      else:
        ok, mark = self.value(want, got)
        if not ok:
          self.add("every word", "of %s only %s is written%s" % (
              what, ", ".join(show(g) for g in got), " (without %r)" % mark if mark else ""))
          return
      if mark == "list" and not (first and marker(c.lead)):
        self.add("list items", "the list marker of %s is not written anew" % what)
      if mark == "fence" and e[0] != "verb" and v.key[0] != "grp":
        self.add("every line", "the fence of %s is lost" % what)
      if e[0] == "verb":
        if c.kind != "raw" or len(list(itertools.groupby(c.atoms, key=src))) > 1 or any(not blank(p) for p in c.lead):
          self.add("preformatted", "%s is not written as a line of its own" % what)
      if e[0] == "ruler" and len(list(itertools.groupby(c.atoms, key=src))) > 1:
        self.add("rulers", "%s is joined with another line" % what)
      if e[0] == "text" and e[2] and not first:
        self.add("blocks", "%s is joined with a line of another block" % what)
      if mark is None and e[0] == "text" and first and any(not blank(p) for p in c.lead):
        self.add("words", "text which is not in the comment is written in front of %s" % what)
    for kind, got, c, first in stream[pos:]:
      if kind != "blank":
        self.add("once", "lines are written more than once, or out of order")
        return

  def describe(self, e):
    names = {"fence": "a fence", "verb": "a preformatted line", "ruler": "a ruler", "text": "a line",
             "blank": "a blank line"}
    return names[e[0]]

  def story(self):
    out = []
    for i in range(self.n):
      w = []
      for u, t in self.st.truth.items():
        if not isinstance(u, U) or not t:
          continue
        if u.key[0] == "matches" and u.key[1] == line(i):
          w.append("matching %r" % u.key[2])
      if self.blank(line(i)):
        w.append("blank")
      out.append(" ".join(w) or "other text")
    return "; ".join("line %d %s" % (i + 1, x) for i, x in enumerate(out))


MEMO = {}
FENCEP = [FENCE]
RULERP = [None]


def defaults(ctx):
  """(section, name) -> default text of the pattern options."""
  from . import c19
  cm = ConfModel(ctx.model)
  it = Interp(ctx.model, TextPlugin())
  out = {}
  for path, f in cm.paths():
    if f.default is None:
      continue
    v = it.const_expr(f.klass.mod, f.default)
    if isinstance(v, C):
      out[path + (f.name,)] = v.v
  return out


def drive(ctx, conf, n, lines, script=None):
  """parse and format n lines: [(state, list of lines | Sig)]"""
  model = ctx.model
  parse, fmt = model.function(MARKUP + ".parse"), model.function(MARKUP + ".format_items")
  p = P([MARKUP, "cmakelang.common"], conf)
  p.script = script
  it = Interp(model, p)
  it.MERGE_AT = it.MAXSTATES = it.LOOP_VARIANTS = 10 ** 9
  it.max_steps = 10 ** 9
  cfg = U(("conf",))

  def setup(st):
    r = it.alloc(st, ("c23", "lines"), Lst(list(lines)))
    return [r, cfg], {}
  out = []
  for st, v in it.run_function(parse, [], setup=setup):
    if isinstance(v, Sig) and v.kind == "raise":
      out.append((st, v))
      continue
    for s2, w in it.run_function(fmt, [cfg, WIDTH, v], st=st):
      out.append((s2, w))
  return it, p, out


# ------------------------------------------------------------------ stable_wrap
class W(P):
  """Follows what is wrapped again and again."""

  def on_inline(self, st, info, args, kwargs, node):
    return TextPlugin.on_inline(self, st, info, args, kwargs, node)

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, U) and f == U(("attr", U(("wrapper",)), "wrap")) and len(args) == 1:
      t = self.res(st, args[0])
      self.wraps += 1
      return [(st, self.interp.alloc(st, self.interp.site(st, node, "wrap"),
                                     Lst([U(("wrap", t, k)) for k in range(3)])))]
    if isinstance(f, U) and f == U(("attr", U(("wrapper",)), "fill")) and len(args) == 1:
      t = self.res(st, args[0])
      return [(st, text([U(("wrap", t, 0)), C("\n"), U(("wrap", t, 1)), C("\n"), U(("wrap", t, 2))]))]
    if isinstance(f, Ext) and f.name == "len" and len(args) == 1:
      v = self.res(st, args[0])
      if isinstance(v, U) and v.key[0] == "attr" and v.key[1] == U(("wrapper",)):
        return [(st, U(("len", v)))]
    return P.on_call(self, st, f, args, kwargs, node)

  def on_subscript(self, st, base, idx, node):
    if isinstance(base, U) and base.key[0] == "wrap" and isinstance(idx, U) and idx.key[0] == "slice":
      lo, hi, step = idx.key[1:]
      if isinstance(lo, U) and lo.key[0] == "len" and hi == NONE and step == NONE:
        want = "initial_indent" if base.key[2] == 0 else "subsequent_indent"
        if lo.key[1] == U(("attr", U(("wrapper",)), want)):
          return [(st, U(("ws", "indent", base)))]
    return P.on_subscript(self, st, base, idx, node)

  def on_compare(self, st, op, a, b, node):
    if isinstance(op, (ast.Eq, ast.NotEq)) and is_text(a) and is_text(b):
      if a == b:
        return [(st, isinstance(op, ast.Eq))]
      return [(s, t == isinstance(op, ast.Eq)) for s, t in self.interp.fork_fact(st, U(("same", a, b)), node)]
    return P.on_compare(self, st, op, a, b, node)


def complete(v):
  """Is v the paragraph, perhaps wrapped and joined again, without a loss?"""
  while True:
    v = bare(v)
    if v == U(("paragraph",)):
      return True
    ps = flat(v)
    if ps is None:
      return False
    ws = [p for p in ps if not isinstance(p, str)]
    if [p.key[0] for p in ws] != ["wrap"] * 3 or any(isinstance(p, str) and p.strip() for p in ps):
      return False
    if [p.key[2] for p in ws] != [0, 1, 2] or len({p.key[1] for p in ws}) != 1:
      return False
    if any(not isinstance(ps[i + 1], str) for i, p in enumerate(ps[:-1]) if not isinstance(p, str)):
      return False
    v = ws[0].key[1]


def wrapping(ctx):
  info = ctx.model.function(WRAP)
  p = W([info.mod.name], {})
  p.wraps = 0
  it = Interp(ctx.model, p)
  it.MERGE_AT = it.MAXSTATES = it.LOOP_VARIANTS = 10 ** 9
  wrapper, para = U(("wrapper",)), U(("paragraph",))
  for st, v in it.run_function(info, [wrapper, para]):
    ctx.count("wrappings")
    if isinstance(v, Sig):
      if v.kind == "raise" and isinstance(v.val, ExcV) and v.val.cls == "AssertionError":
        continue                       # the text never settles
      ctx.violation("wrapping", "stable_wrap", info.where, "wrapping fails with %s" % show(v.val))
      continue
    v = it.resolve(st, v)
    ls = [it.resolve(st, x) for x in it.expand(st, v)] if isinstance(v, (Ref, Tup)) else None
    good = ls is not None and all(isinstance(x, U) and x.key[0] == "wrap" for x in ls) and \
        [x.key[2] for x in ls] == [0, 1, 2] and complete(text([x for y in ls for x in (y, C("\n"))]))
    if not good:
      ctx.violation("wrapping", "stable_wrap", info.where, "returns %s, which is not the whole paragraph" % (
          [show(x) for x in ls] if ls is not None else show(v)))
  ctx.expect("wrappings", 2)


def run(ctx):
  for t in (
      "parse and format_items, composed, on symbolic lines: output == input lines in order, but for list markers and "
      "fences which are written anew",
      "language of what a match leaves undelivered is within white space and one marker",
      "no path through the writer fails on an item the reader makes",
      "wrapping keeps whole words and all lines; a line of a comment reaches the markup without its hash characters only"):
    ctx.rule(t)
  conf = defaults(ctx)
  fp = conf.get(("markup", "fence_pattern"))
  if not isinstance(fp, str) or Pattern(fp).kind != "fence":
    raise AnchorError("no default pattern of fences")
  FENCEP[0] = fp
  MEMO.clear()
  seen = set()
  info = ctx.model.function(MARKUP + ".parse")
  jobs = [(dict(conf), n, None) for n in range(1, 4)]
  # a ruler pattern of the user
  own = dict(conf)
  own["markup", "ruler_pattern"] = r"^\s*%{4}.*$"
  jobs += [(own, n, None) for n in range(1, 3 if ctx.tier == "quick" else 4)]
  # long blocks
  many = 24
  for a in ("words", "* words", "1. words", "1: words", "", "------", "######", "TODO(me): words"):
    jobs.append((conf, many, [a] * many))
  # where the numbers of an enumeration get wider
  for n in (9, 10, 11) + ((99, 100, 101) if ctx.tier != "quick" else (100,)):
    jobs.append((conf, n, ["1. words"] * n))
  for a in ("1. words", "* words"):
    jobs.append((conf, many, [a, "words"] * (many // 2)))
  jobs.append((conf, many, ["~~~"] + ["words"] * (many - 2) + ["~~~"]))
  for cf, n, script in jobs:
    RULERP[0] = cf.get(("markup", "ruler_pattern"))
    it, p, res = drive(ctx, cf, n, [line(i) for i in range(n)], script)
    for st, v in res:
      ctx.count("paths")
      j = Judge(ctx, st, n, info.where)
      if isinstance(v, Sig):
        j.add("handled", "the writer fails with %s" % show(v.val))
      else:
        v = it.resolve(st, v)
        if not isinstance(v, Ref) or not isinstance(st.heap.get(v), Lst):
          raise AnchorError("format_items returns %s" % show(v))
        lines = [it.resolve(st, x) for x in it.expand(st, v)]
        r = Reader(j.add)
        ch = r.read(lines)
        if ch is not None:
          j.judge(ch)
        ctx.count("lines written", len(lines))
      for rule, msg in j.bad:
        if (rule, msg) not in seen:
          seen.add((rule, msg))
          ctx.violation(rule, "markup", j.where, "%s: %s" % (msg, j.story()[:1500]))
    for pr in p.problems:
      if pr not in seen:
        seen.add(pr)
        ctx.violation(*pr)
  wrapping(ctx)
  ctx.expect("paths", 500)
  ctx.expect("lines written", 1000)
