"""Obligations of the leaves of the layout tree, of the contract of reflow(),
and of the file they are written to."""
try:
  import re._parser as sre
except ImportError:
  import sre_parse as sre

from . import layoutmodel as L
from . import layoutcheck as K
from .absint import C, E, U, Ref, Inst, Tup, Lst, Sig, NONE, TRUE, FALSE, show, FnV
from .layoutcheck import Report, raised, method_where, same, atleast, pos, at, diff
from .model import AnchorError


def language(tree):
  """Finite language of a parsed regular expression, or None."""
  out = {""}
  for op, av in tree:
    op = str(op)
    if op == "LITERAL":
      got = {chr(av)}
    elif op == "IN":
      if any(str(o) != "LITERAL" for o, _ in av):
        return None
      got = {chr(a) for _, a in av}
    elif op == "SUBPATTERN":
      got = language(av[-1])
    elif op == "BRANCH":
      got = set()
      for b in av[1]:
        g = language(b)
        if g is None:
          return None
        got |= g
    elif op == "MAX_REPEAT" or op == "MIN_REPEAT":
      lo, hi, sub = av
      g = language(sub)
      if g is None or hi > 3:
        return None
      got, cur = set(), {""}
      for i in range(hi + 1):
        if i >= lo:
          got |= cur
        cur = {a + b for a in cur for b in g}
    else:
      return None
    if got is None:
      return None
    out = {a + b for a in out for b in got}
  return out


BREAKS = {"\r\n", "\r", "\n"}


def source(t, case=False, comment=False):
  """The spelling a text is made of, if nothing but its line endings (and its
  case) may differ from it."""
  if not isinstance(t, U):
    return None
  k = t.key
  if k[0] == "spelling":
    return t
  if k[0] == "repl":
    if isinstance(k[2], C) and k[2].v in ("\r\n", "\r") and k[3] == C("\n"):
      return source(k[1], case, comment)
    return None
  if k[0] == "m":
    if case and k[1] in ("lower", "upper"):
      return source(k[2], case, comment)
    if comment and k[1] in ("strip", "rstrip") and len(k) == 3:
      return source(k[2], case, comment)
    if k[1] == "replace" and k[3] in (C("\r\n"), C("\r")) and k[4] == C("\n"):
      return source(k[2], case, comment)
    return None
  if k[0] == "resub":
    pat, rep, x = k[1:4]
    if not isinstance(pat, C) or rep != C("\n"):
      return None
    if comment:
      return source(x, case, comment) if trims(pat.v) else None
    try:
      lang = language(sre.parse(pat.v))
    except Exception:
      return None
    return source(x, case, comment) if lang is not None and lang <= BREAKS else None
  if k[0] == "text" and len(k) == 2:
    return source(k[1], case, comment)
  return None


def trims(pat):
  """Does the pattern match nothing but white space?"""
  def ok(tree):
    for op, av in tree:
      op = str(op)
      if op == "LITERAL":
        if not chr(av).isspace():
          return False
      elif op == "IN":
        for o, a in av:
          if str(o) == "LITERAL" and chr(a).isspace() or str(o) == "CATEGORY" and str(a) == "CATEGORY_SPACE":
            continue
          return False
      elif op == "SUBPATTERN":
        if not ok(av[-1]):
          return False
      elif op == "BRANCH":
        if not all(ok(b) for b in av[1]):
          return False
      elif op in ("MAX_REPEAT", "MIN_REPEAT"):
        if not ok(av[2]):
          return False
      elif op != "AT":
        return False
    return True
  try:
    return ok(sre.parse(pat))
  except Exception:
    return False


def strip_case(t):
  while isinstance(t, U) and (t.key[0] == "m" and t.key[1] in ("lower", "upper")):
    t = t.key[2]
  return t


def norm(t):
  """Texts that are the same up to their case."""
  return source(t, True) or t


def name_text(t, sid):
  """Is a command name written as its spelling, in another case, or as the
  canonical spelling of the command?"""
  sp = source(t, True)
  if sp is not None:
    return sp == U(("spelling", C(sid), C(0)))
  if isinstance(t, U):
    k = t.key
    if k[0] == "option" and k[1] == "spelling":
      return all(name_text(d, sid) for d in k[2:])
    if k[0] == "attr" and k[2] == "spelling" and "cmdspec" in show(k[1]):
      return True
  return False


def lines_of(model, make, n):
  b = L.Bench(model, make, nlines=n)
  return b


def leaf(model, make, n):
  sh = make()
  rep = Report()
  b = L.Bench(model, sh, nlines=n)
  for st, root in b.build():
    if isinstance(root, Sig):
      raised(rep, b, st, root, "formatter.create_box_tree", "", sh, "building")
      continue
    k = st.heap[root].klass
    rc, rw = method_where(model, k, "_reflow")
    wc, ww = method_where(model, k, "write")
    if sh.kind == "FUNNAME":
      b.adopt(st, root)
    for s2, v in b.reflow(st, root):
      rep.count("leaf layouts")
      if isinstance(v, Sig):
        raised(rep, b, s2, v, rc, rw, sh, "laying out")
        continue
      end = b.plugin.xy(s2, v)
      if end is None:
        raise AnchorError("%s returns no cursor" % rc)
      places = K.positions(b, s2, root, rep, rc, rw, sh)
      for active in (True, False):
        s3 = s2.copy()
        off = None if active else b.offtoken(s3)
        for s4, w in b.write(s3, root, off):
          rep.count("leaf writes")
          if isinstance(w, Sig):
            raised(rep, b, s4, w, wc, ww, sh, "writing")
            continue
          judge(rep, b, s4, sh, end, places, n, active, rc, rw, wc, ww)
  return rep


def judge(rep, b, st, sh, end, places, n, active, rc, rw, wc, ww):
  w = list(st.p.d["w"])
  texts = [x for x in w if x[0] == "text"]
  kids = [x for x in sh.kids()]
  if not active:
    if texts or [x for x in w if x[0] not in ("text", "child")]:
      rep.add("C10", "silent", wc, ww, "%s writes %s while formatting is off" % (sh, show(texts[0][2]) if texts else w[0][0]))
    return
  x0, y0 = b.X0, b.Y0
  other = [x for x in w if x[0] not in ("text", "child")]
  if other:
    rep.add("C07", "own text", wc, ww, "%s is not written with write_at() but with %s()" % (sh, other[0][0]))
    return
  if [x[1] for x in w if x[0] == "child"] != [c.id for c in kids] or (kids and w and w[-1][0] != "child"):
    rep.add("C07", "children", wc, ww, "the comment behind %s is not written once, after it" % sh)
  if sh.kind == "WHITESPACE":
    if texts or not (same(end[0], x0) and same(end[1], y0)):
      rep.add("C08", "white space", wc, ww, "white space between statements takes up space or is written")
    return
  if sh.kind in ("LPAREN", "RPAREN"):
    want = "(" if sh.kind == "LPAREN" else ")"
    if len(texts) != 1 or texts[0][2] != C(want):
      rep.add("C07", "own text", wc, ww, "%s is written as %s" % (sh.kind, [show(t[2]) for t in texts]))
      return
    if not (same(end[0], x0) and same(diff_add(end[1], -1), y0)):
      rep.add("C08", "measure", rc, rw, "a parenthesis does not take one column: it ends at %s" % pos(end))
    placed(rep, b, texts[0], x0, y0, wc, ww, sh)
    return
  isline = sh.kind == "COMMENT" and "COMMENT" in sh.items
  if isline:
    got = [t[2] for t in texts]
    if got != [U(("cline", i)) for i in range(n)]:
      rep.add("C07", "own text", wc, ww, "a comment of %d lines is written as %s" % (n, [show(x) for x in got]))
      return
    for i, t in enumerate(texts):
      if t[1] is None or not (same(t[1][0], U(("bin", "Add", x0, C(i)))) and same(t[1][1], y0)):
        rep.add("C08", "place", wc, ww, "line %d of a comment placed at %s is written at %s" % (
            i, pos((x0, y0)), pos(t[1]) if t[1] else "?"))
    last = U(("len", U(("cline", n - 1))))
    cols = U(("bin", "Add", y0, last))
    if not (same(end[0], U(("bin", "Add", x0, C(n - 1)))) and atleast(end[1], cols, 0)):
      rep.add("C08", "measure", rc, rw, "a comment of %d lines placed at %s ends at %s" % (n, pos((x0, y0)), pos(end)))
    return
  # scalars and bracket comments: one text
  if len(texts) != 1:
    rep.add("C07", "own text", wc, ww, "%s is written as %s" % (sh, [show(t[2]) for t in texts] or "nothing"))
    return
  t = texts[0][2]
  placed(rep, b, texts[0], x0, y0, wc, ww, sh)
  tok = U(("spelling", C(sh.id), C(0)))
  case = sh.kind in ("KEYWORD", "FLAG", "FUNNAME")
  comment = sh.kind == "COMMENT"
  ok = name_text(t, sh.id) if sh.kind == "FUNNAME" else source(t, case, comment) == tok
  if not ok:
    rep.add("C07" if comment else "C08", "text", wc, ww, "the text written for %s is %s, which may differ from its spelling%s (%s)" % (
        sh.kind.lower().replace("funname", "command name") + " " + str(sh.items[0]), show(t), " by more than its case" if case else "", at(st)))
  # the measured text is the written one
  own = end
  if kids:
    own = None
    if kids[0].id not in places:
      rep.add("C07", "placed", rc, rw, "the comment behind %s is never placed" % sh)
      return
    p, e = places[kids[0].id]
    if not (atleast(end[0], e[0], 1) or same(end[0], e[0]) and (same(end[1], e[1]) or atleast(end[1], e[1], 0))):
      rep.add("C08", "end", rc, rw, "%s is said to end at %s, but the comment behind it ends at %s" % (sh, pos(end), pos(e)))
  rows, atom = x0, None
  if n > 1:
    rows = U(("bin", "Add", x0, C(n - 1)))
  where = places[kids[0].id][0] if kids else end
  if kids and atleast(where[0], rows, 1):
    return
  if sh.kind in L.WORDS and n > 1:
    return         # no line break in a word
  d = diff(where[1], y0 if n == 1 else C(0))
  gap = d.pop(1, 0) if d is not None else None
  good = d is not None and len(d) == 1 and gap >= (1 if kids else 0)
  if good:
    (atom, c), = d.items()
    good = c == 1 and isinstance(atom, U) and atom.key[0] == "len" and measured(atom.key[1], n, t, case)
  if not (same(where[0], rows) and good):
    rep.add("C08", "measure", rc, rw, "%s of %d line(s), placed at %s and written as %s, %s %s" % (
        sh, n, pos((x0, y0)), show(t), "has its comment at" if kids else "is said to end at", pos(where)))


def measured(lineval, n, t, case):
  if isinstance(lineval, U) and lineval.key[0] == "line":
    return lineval.key[2] == n - 1 and (norm(lineval.key[1]) == norm(t) or lineval.key[1] == t or
                                        name_like(t))
  # the length of the whole text, where it is known to be one line
  return n == 1 and (norm(lineval) == norm(t) or name_like(t))


def name_like(t):
  return isinstance(t, U) and t.key[0] in ("option", "attr")


def diff_add(v, k):
  return U(("bin", "Add", v, C(k)))


def placed(rep, b, t, x0, y0, wc, ww, sh):
  if t[1] is None or not (same(t[1][0], x0) and same(t[1][1], y0)):
    rep.add("C08", "place", wc, ww, "%s was laid out at %s, but is written at %s" % (
        sh, pos((x0, y0)), pos(t[1]) if t[1] else "?"))


# ---------------------------------------------------------------- reflow()

class ReflowPlugin(L.LPlugin):
  """_reflow() is a stub which moves the cursor it is given."""

  def on_inline(self, st, info, args, kwargs, node):
    name = info.node.name
    if info.klass is not None and info.klass.issub(self.layout):
      if name == "_reflow":
        got = self.interp.bind_args(st, info, args, kwargs, node)
        if got is None:
          return None
        cur = self.interp.resolve(st, got[info.params[2]])
        xy = self.xy(st, cur)
        n = len(st.p.d["ev"])
        end = self.new_cursor(st, U(("end-row", n)), U(("end-col", n)), ("end", n))
        st.p.d["ev"] = st.p.d["ev"] + (("_reflow", self.interp.resolve(st, got[info.params[0]]), xy, end),)
        o = st.heap.get(cur)
        if isinstance(o, Inst):
          st.heap[cur] = Inst(o.klass, {"x": U(("moved-row", n)), "y": U(("moved-col", n))})
        return [(st, end)]
      if name == "_validate_layout":
        return [(st, TRUE), (st.copy(), FALSE)]
    return L.LPlugin.on_inline(self, st, info, args, kwargs, node)

  def text_method(self, st, base, name, args, kwargs, node):
    if name == "get" and len(args) == 2 and isinstance(base, U) and "layout_passes" in show(base):
      return self.interp.resolve(st, args[1])
    return L.LPlugin.text_method(self, st, base, name, args, kwargs, node)


def contract(model, make):
  """reflow() places the node at the given cursor, hands on copies of it, and
  returns where the last layout ended."""
  sh = make()
  rep = Report()
  b = L.Bench(model, sh)
  b.use(ReflowPlugin)
  for st, root in b.build():
    if isinstance(root, Sig):
      continue
    k = st.heap[root].klass
    c, w = method_where(model, k, "reflow")
    c = "%s.reflow" % k.qual.replace("cmakelang.format.", "")
    for passno in (0, 4):
      s = st.copy()
      s.p.d["root"] = root
      cur = b.plugin.new_cursor(s, b.X0, b.Y0, "given")
      s.p.d["keep"] = cur
      for s2, v in b.method(s, root, "reflow", [b.context(s), cur, C(passno)]):
        rep.count("reflows")
        if isinstance(v, Sig):
          raised(rep, b, s2, v, c, w, sh, "placing")
          continue
        ev = [e for e in s2.p.d["ev"] if e[0] == "_reflow" and e[1] == root]
        if not ev:
          rep.add("C07", "placed", c, w, "reflow() of %s does not lay it out" % k.qual)
          continue
        for e in ev:
          if e[2] is None or not (same(e[2][0], b.X0) and same(e[2][1], b.Y0)):
            rep.add("C08", "place", c, w, "a layout of %s starts at %s and not where it is to be placed" % (
                k.qual, pos(e[2]) if e[2] else "?"))
        xy = b.plugin.xy(s2, v)
        if xy is None or xy != b.plugin.xy(s2, ev[-1][3]):
          rep.add("C08", "end", c, w, "reflow() of %s returns %s, but its last layout ended at %s" % (
              k.qual, pos(xy) if xy else show(v), pos(b.plugin.xy(s2, ev[-1][3]))))
        p = b.plugin.xy(s2, s2.heap[root].attrs.get("_position", NONE))
        if p is None or not (same(p[0], b.X0) and same(p[1], b.Y0)):
          rep.add("C08", "place", c, w, "reflow() of %s leaves it at %s, but it was laid out from %s" % (
              k.qual, pos(p) if p else "no place", pos((b.X0, b.Y0))))
        q = b.plugin.xy(s2, cur)
        if q != (b.X0, b.Y0):
          rep.add("C08", "cursor", c, w, "reflow() of %s moves the cursor of its caller" % k.qual)
        if b.interp.resolve(s2, s2.heap[root].attrs.get("_position", NONE)) == cur:
          rep.add("C08", "cursor", c, w, "reflow() of %s keeps the cursor of its caller, who moves it on" % k.qual)
  return rep


# ---------------------------------------------------------------- the file

class FilePlugin(L.LPlugin):
  """The file object behind CursorFile only records what it is given."""

  def on_inline(self, st, info, args, kwargs, node):
    if info.klass is not None and info.klass.qual == self.write_at:
      return None
    return L.LPlugin.on_inline(self, st, info, args, kwargs, node)

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, U) and f.key[0] == "attr" and len(f.key) == 3 and f.key[1] == U(("fobj",)):
      a = [self.interp.resolve(st, x) for x in args]
      st.p.d["w"] = st.p.d["w"] + ((f.key[2],) + tuple(a),)
      return [(st, U(("fobj", f.key[2])))]
    if f in (L.Ext("divmod"), L.Ext("builtins.divmod")):
      a = [self.interp.resolve(st, x) for x in args]
      return [(st, Tup((U(("bin", "FloorDiv") + tuple(a)), U(("bin", "Mod") + tuple(a)))))]
    return L.LPlugin.on_call(self, st, f, args, kwargs, node)

  def text_method(self, st, base, name, args, kwargs, node):
    return L.LPlugin.text_method(self, st, base, name, args, kwargs, node)


def atoms(v):
  """Pieces of a written text; repetitions are spelled out."""
  if isinstance(v, C) and v.v == "":
    return []
  if isinstance(v, U) and v.key[0] == "text":
    return [x for p in v.key[1:] for x in atoms(p)]
  if isinstance(v, U) and v.key[:2] == ("bin", "Mult"):
    a, n = v.key[2], v.key[3]
    if isinstance(a, C) and isinstance(a.v, int):
      a, n = n, a
    if isinstance(n, C) and isinstance(n.v, int):
      return atoms(a) * n.v
  if isinstance(v, U) and v.key[:2] == ("bin", "Add"):
    return atoms(v.key[2]) + atoms(v.key[3])
  return [v]


def blank(v):
  if isinstance(v, C):
    return isinstance(v.v, str) and v.v.strip(" \t") == ""
  if isinstance(v, U) and v.key[:2] == ("bin", "Mult"):
    return blank(v.key[2]) or blank(v.key[3])
  if isinstance(v, U) and (v.key[0] == "text" or v.key[:2] == ("bin", "Add")):
    return all(blank(x) for x in (v.key[1:] if v.key[0] == "text" else v.key[2:]))
  return False


def is_endl(v):
  return isinstance(v, U) and v.key[0] in ("attr",) and v.key[2] == "endl" or \
      isinstance(v, U) and v.key[0] == "attr" and str(v.key[-1]) == "endl"


def outfile(model):
  rep = Report()
  CF = L.FMT + ".CursorFile"
  info = model.function(CF + ".write_at")
  text = U(("spelling", C(0), C(0)))
  for n in (1, 2, 3):
    for start, goal in (((2, 3), (2, 3)), ((2, 3), (2, 7)), ((2, 3), (4, 0)), ((2, 3), (4, 5)), ((2, 3), (3, 1)),
                        ((0, 0), (0, 0)), ((2, 0), (2, 2))):
      b = L.Bench(model, L.arg(), nlines=n)
      b.use(FilePlugin)
      st = b.st
      p = b.plugin
      f = b.interp.alloc(st, ("file",), Inst(model.klass(CF), {
          "_fobj": U(("fobj",)), "_cursor": p.new_cursor(st, C(start[0]), C(start[1]), "now"), "_config": L.CONFIG}))
      given = p.new_cursor(st, C(goal[0]), C(goal[1]), "goal")
      for s, v in b.method(st, f, "write_at", [given, text]):
        rep.count("file writes")
        if isinstance(v, Sig):
          if v.kind == "raise" and "fractional" in show(v.val):
            continue
          rep.add("C07", "no error", "formatter.CursorFile.write_at", info.where,
                  "writing at %s from %s fails: %s (%s)" % (goal, start, show(v.val)[:160], at(s)))
          continue
        got = []
        for e in s.p.d["w"]:
          if e[0] == "write":
            got.extend(atoms(e[1]))
        said = "with the file at %s, a text of %d line(s) for %s is written as %s" % (start, n, goal, [show(x) for x in got])
        rest = list(got)
        ok = True
        for _ in range(goal[0] - start[0]):
          ok = ok and bool(rest) and is_endl(rest.pop(0))
        if not ok:
          rep.add("C08", "line breaks", "formatter.CursorFile.write_at", info.where, said)
          continue
        cols = goal[1] - (start[1] if goal[0] == start[0] else 0)
        pad = []
        while rest and blank(rest[0]):
          pad.append(rest.pop(0))
        inline = goal[0] == start[0] and start[1] > 0
        width = sum(len(x.v) for x in pad) if all(isinstance(x, C) for x in pad) else None
        if (inline and (width != cols or any("\t" in x.v for x in pad))) or (cols and not pad) or \
            (not cols and pad and width != 0) or (width is not None and width != cols and not any("\t" in x.v for x in pad)):
          rep.add("C08", "blanks", "formatter.CursorFile.write_at", info.where, said)
          continue
        want = []
        for i in range(n):
          want.append("endl")
          want.append(i)
        want = want[1:]
        good = len(rest) == len(want)
        for x, y in zip(rest, want):
          if y == "endl":
            good = good and is_endl(x)
          else:
            good = good and (isinstance(x, U) and x.key[:1] == ("line",) and x.key[1] == text and x.key[2] == y or
                             n == 1 and x == text)
        if not good:
          rep.add("C08", "lines", "formatter.CursorFile.write_at", info.where, said)
          continue
        now = p.xy(s, s.heap[f].attrs["_cursor"])
        row = C(goal[0] + n - 1)
        ends = [U(("len", U(("line", text, n - 1))))] + ([U(("len", text)), U(("call", "len", text))] if n == 1 else [])
        ends = [U(("bin", "Add", C(goal[1]), e)) if n == 1 else e for e in ends]
        if now is None or not same(now[0], row) or not any(same(now[1], e) for e in ends):
          rep.add("C08", "cursor", "formatter.CursorFile.write_at", info.where,
                  "%s, and the file is taken to be at %s" % (said, pos(now) if now else "?"))
        if p.xy(s, given) != (C(goal[0]), C(goal[1])):
          rep.add("C08", "cursor", "formatter.CursorFile.write_at", info.where, "writing moves the place of the node that is written")
  # verbatim text, and what is handed back
  b = L.Bench(model, L.arg())
  b.use(FilePlugin)
  st = b.st
  f = b.interp.alloc(st, ("file",), Inst(model.klass(CF), {
      "_fobj": U(("fobj",)), "_cursor": b.plugin.new_cursor(st, C(2), C(3), "now"), "_config": L.CONFIG}))
  copied = U(("copied",))
  info = model.function(CF + ".write")
  for s, v in b.method(st.copy(), f, "write", [copied]):
    rep.count("file writes")
    got = [x for e in s.p.d["w"] if e[0] == "write" for x in atoms(e[1])]
    if isinstance(v, Sig):
      continue
    if got != [copied]:
      rep.add("C10", "verbatim", "formatter.CursorFile.write", info.where,
              "text to be copied is written as %s" % [show(x) for x in got])
  # nothing is translated on the way
  info = model.function(CF + ".__init__")
  for s, v in b.call([st.copy()], CF + ".__init__", [b.interp.alloc(st, ("new",), Inst(model.klass(CF), {})), L.CONFIG]):
    pass
  return rep


# ---------------------------------------------------------------- off and on

class WritePlugin(L.LPlugin):
  """The whole tree is written, to a file which records the texts, from a
  source whose bytes are addressed by offsets."""

  def __init__(self, *a, **kw):
    L.LPlugin.__init__(self, *a, **kw)
    self.contract = False

  def on_inline(self, st, info, args, kwargs, node):
    if info.klass is not None and info.klass.qual == self.write_at and info.node.name not in ("write", "write_at"):
      return None
    return L.LPlugin.on_inline(self, st, info, args, kwargs, node)

  def output(self, st, name, args, kwargs, node):
    f, o = self.inst(st, args[0])
    at = None
    if o is not None and "_cursor" in o.attrs:
      at = self.xy(st, o.attrs["_cursor"])
    rs = L.LPlugin.output(self, st, name, args, kwargs, node)
    w = st.p.d["w"]
    st.p.d["w"] = w[:-1] + (w[-1] + (at,),)
    if o is not None:
      n = len(w)
      st.heap[f] = Inst(o.klass, dict(o.attrs, _cursor=self.new_cursor(st, U(("file-row", n)), U(("file-col", n)), ("f", n))))
    return rs

  def on_call(self, st, f, args, kwargs, node):
    a = [self.interp.resolve(st, x) for x in args]
    kw = {k: self.interp.resolve(st, x) for k, x in kwargs.items()}
    name = f.name if isinstance(f, L.Ext) else None
    if name in ("bytearray", "bytes", "builtins.bytearray", "builtins.bytes") and a:
      enc = a[1] if len(a) > 1 else kw.get("encoding")
      if isinstance(a[0], U) and a[0].key[0] == "u8":
        return [(st, a[0])]
      if isinstance(enc, C) and str(enc.v).lower().replace("_", "-") in ("utf-8", "utf8"):
        return [(st, U(("u8", a[0])))]
    if name == "io.BytesIO" and a:
      st.p.d["seek"] = C(0)
      return [(st, U(("bio", a[0])))]
    if isinstance(f, U) and f.key[0] == "attr" and len(f.key) == 3 and isinstance(f.key[1], U):
      base, m = f.key[1], f.key[2]
      if m == "encode" and (not a or isinstance(a[0], C) and str(a[0].v).lower().replace("_", "-") in ("utf-8", "utf8")):
        return [(st, U(("u8", base)))]
      if base.key[0] == "bio":
        if m == "seek" and a:
          st.p.d["seek"] = a[0] if len(a) == 1 or a[1] == C(0) or a[1] == L.Ext("os.SEEK_SET") or \
              a[1] == L.Ext("io.SEEK_SET") else U(("seek", st.p.d.get("seek", C(0))) + tuple(a))
          return [(st, a[0])]
        if m == "read":
          b = st.p.d.get("seek", C(0))
          if not a or a[0] in (C(-1), NONE):
            e = NONE
          else:
            e = U(("bin", "Add", b, a[0]))
          st.p.d["seek"] = e
          return [(st, U(("bytes", base.key[1], b, e)))]
        if m in ("getvalue", "getbuffer"):
          return [(st, base.key[1])]
      if base.key[0] == "bytes" and m == "decode":
        if not a or isinstance(a[0], C) and str(a[0].v).lower().replace("_", "-") in ("utf-8", "utf8"):
          return [(st, U(("verbatim",) + base.key[1:]))]
    return L.LPlugin.on_call(self, st, f, args, kwargs, node)

  def on_subscript(self, st, base, idx, node):
    import ast
    base = self.interp.resolve(st, base)
    if isinstance(base, U) and base.key[0] == "u8" and isinstance(idx, U) and idx.key[0] == "slice":
      return [(st, U(("bytes", base, idx.key[1], idx.key[2])))]
    return L.LPlugin.on_subscript(self, st, base, idx, node)


SOURCE = U(("infile-content",))


def regions(model, make):
  """write_tree() of a body in which formatting is switched off and on."""
  sh = make()
  rep = Report()
  b = L.Bench(model, sh)
  b.use(WritePlugin)
  c, info = "formatter.write_tree", model.function(L.FMT + ".write_tree")
  for st, root in b.build():
    if isinstance(root, Sig):
      raised(rep, b, st, root, "formatter.create_box_tree", "", sh, "building")
      continue
    b.place_all(st)
    st.p.d["root"] = NONE
    st.p.d["w"] = ()
    for s, v in b.call([st], L.FMT + ".write_tree", [root, L.CONFIG, SOURCE]):
      rep.count("regions")
      if isinstance(v, Sig):
        raised(rep, b, s, v, c, info.where, sh, "writing")
        continue
      judge_regions(rep, b, s, v, sh, c, info.where)
  return rep


def judge_regions(rep, b, st, v, sh, c, where):
  want, offat, offs = [], None, []
  for x in sh.leaves():
    if x.kind == "ONOFFSWITCH":
      if x.items[0] == "FORMAT_OFF":
        if offat is None:
          want.append(("pragma", x))
          offat = x
        continue
      if offat is not None:
        want.append(("copy", offat, x))
        offat = None
      want.append(("pragma", x))
    elif offat is None:
      want.append(("leaf", x))
  if offat is not None:
    want.append(("copy", offat, None))
  got = list(st.p.d["w"])
  said = []
  for i in range(max(len(want), len(got))):
    w = want[i] if i < len(want) else None
    g = got[i] if i < len(got) else None
    if w is None:
      rep.add("C10", "silent", c, where, "%s: %s is written, which belongs to text that is copied or was written before" % (
          sh, show(g[2]) if g[0] == "text" else show(g[1])))
      return
    if w[0] == "copy":
      e = "the text from behind %s up to %s" % (w[1], w[2] or "the end of the file")
      if g is None or g[0] != "write":
        rep.add("C10", "copied", c, where, "%s: %s is not copied%s" % (sh, e, "; %s is written instead" % show(g[2]) if g else ""))
        return
      t = b.interp.resolve(st, g[1])
      ok = isinstance(t, U) and t.key[0] == "verbatim" and t.key[1] == U(("u8", SOURCE)) and \
          same(t.key[2], offset(w[1], "end")) and \
          (t.key[3] == NONE if w[2] is None else same(t.key[3], offset(w[2], "begin")))
      if not ok:
        rep.add("C10", "verbatim", c, where, "%s: instead of %s, %s is copied" % (sh, e, show(t)))
        return
      continue
    x = w[1]
    if g is None or g[0] != "text":
      rep.add("C10", "written", c, where, "%s: %s is not written although formatting is on%s" % (
          sh, x, "; %s is copied" % show(g[1]) if g else ""))
      return
    if w[0] == "pragma":
      t = g[2]
      sp = "off" if x.items[0] == "FORMAT_OFF" else "on"
      if not (isinstance(t, C) and isinstance(t.v, str) and
              __import__("re").match(r"#\s*cmake-format: %s\s*$" % sp, t.v) or t == U(("spelling", C(x.id), C(0)))):
        rep.add("C10", "pragma", c, where, "%s: the pragma %s is written as %s" % (sh, x, show(t)))
        return
      if i and want[i - 1][0] == "copy" and g[-1] != g[1]:
        rep.add("C10", "cursor", c, where, "%s: behind the copied text the file is taken to be at %s, where it is continued at %s" % (
            sh, g[-1] and pos(g[-1]), g[1] and pos(g[1])))
        return
    elif x.kind in ("LPAREN", "RPAREN"):
      if g[2] != C("(" if x.kind == "LPAREN" else ")"):
        rep.add("C10", "written", c, where, "%s: %s is written for %s" % (sh, show(g[2]), x))
        return
    elif x.kind not in ("FUNNAME",) and source(g[2], True, True) != U(("spelling", C(x.id), C(0))):
      rep.add("C10", "written", c, where, "%s: %s is written for %s" % (sh, show(g[2]), x))
      return
  ends = [x for x in atoms(b.interp.resolve(st, v))]
  endl = [x for x in ends if is_endl(x)]
  if offat is not None and len(ends) != 1:
    rep.add("C10", "end of file", c, where, "%s: something is appended to the verbatim end of the file: %s" % (sh, show(v)))
  if offat is None and len(endl) != 1:
    rep.add("C08", "end of file", c, where, "%s: the last line is not ended: %s" % (sh, show(v)))


def offset(sh, which):
  return U(("attr", U((which, C(sh.id), C(0))), "offset"))


def region_shapes():
  s = lambda *a: L.stmt(L.group(*a))
  p = lambda *a: s(L.parg(*a))
  A, O, N = L.arg, L.off, L.on
  B = L.body
  out = [
      lambda: B(p(A())), lambda: B(O(), p(A()), N()), lambda: B(p(A()), O(), p(A()), N(), p(A())),
      lambda: B(O(), p(A())), lambda: B(O(), O(), p(A()), N(), p(A())), lambda: B(N(), p(A())),
      lambda: B(O(), N(), O(), p(A()), N(), p(A())), lambda: B(p(A()), O()), lambda: B(O(), p(A()), N(), N(), p(A())),
      lambda: B(O(), L.bracket(), L.ws(), L.atstmt(), N(), L.bracket(), L.atstmt()),
      lambda: B(p(A(), O(), A(), N(), A())), lambda: B(p(A(), O(), A()), p(A(), N(), A()), p(A())),
      lambda: B(s(O(), L.parg(A()), N(), L.parg(A()))), lambda: B(s(O(), L.kw(L.parg(A())), N(), L.kw(L.parg(A())))),
      lambda: B(s(O(), L.paren(L.group(L.parg(A()))), N(), L.paren(L.group(L.parg(A()))))),
      lambda: B(s(L.paren(L.group(O(), L.parg(A()))), N(), L.parg(A()))),
      lambda: B(s(L.kw(L.parg(A(), O())), L.kw(L.parg(A(), N(), A())))),
      lambda: B(O(), K.flow(B(p(A()), N(), p(A()))), p(A())),
      lambda: B(K.flow(B(O(), p(A()))), p(A())), lambda: B(O(), L.stmt(L.group(), L.bracket()), N(), L.stmt(L.group(), L.bracket())),
      lambda: B(p(L.arg(L.bracket())), O(), p(L.arg(L.bracket()), L.flag(L.bracket())), N(), p(L.flag(L.bracket()))),
  ]
  return out


# ---------------------------------------------------------------- comments

class CommentPlugin(L.LPlugin):
  """The lines of a comment, and what the markup reader makes of them."""

  def __init__(self, *a, **kw):
    L.LPlugin.__init__(self, *a, **kw)
    self.comment_lines = self.model.module("cmakelang.markup")    # nothing is summarised

  def on_inline(self, st, info, args, kwargs, node):
    if info.mod.name == "cmakelang.markup":
      a = [self.interp.resolve(st, x) for x in args] + [self.interp.resolve(st, x) for x in kwargs.values()]
      vals = []
      for x in a:
        if isinstance(x, Ref) and isinstance(st.heap.get(x), Lst):
          x = Tup(tuple(self.interp.resolve(st, y) for y in st.heap[x].items))
        vals.append(x)
      if info.node.name == "parse":
        return [(st, U(("parsed",) + tuple(v for v in vals if isinstance(v, Tup))))]
      if info.node.name == "format_items":
        it = [v for v in vals if isinstance(v, U) and v.key[0] == "parsed"]
        return [(st, self.interp.alloc(st, ("mlines",), Lst([U(("mline", it[0] if it else NONE, i)) for i in range(2)])))]
    return L.LPlugin.on_inline(self, st, info, args, kwargs, node)


def holds(v, x):
  if v == x:
    return True
  if isinstance(v, U):
    return any(holds(k, x) for k in v.key)
  if isinstance(v, Tup):
    return any(holds(k, x) for k in v.items)
  return False


def comments(model):
  rep = Report()
  info = model.function(L.FMT + ".format_comment_lines")
  c = "formatter.format_comment_lines"
  for toks, explicit in ((["COMMENT"], False), (["COMMENT"], True), (["COMMENT", "NEWLINE", "COMMENT"], False),
                         (["COMMENT", "NEWLINE", "WHITESPACE", "COMMENT", "NEWLINE", "COMMENT"], False),
                         (["COMMENT", "NEWLINE", "WHITESPACE"], False)):
    sh = L.Shape("COMMENT", *toks, is_explicit_trailing=TRUE if explicit else FALSE)
    b = L.Bench(model, sh)
    b.use(CommentPlugin)
    st = b.st
    p = b.pnode(st, sh)
    want = [U(("spelling", C(sh.id), C(i))) for i in range(len(toks)) if toks[i] == "COMMENT"]
    # the tokens of a node are its children, numbered without other nodes
    ids = [o.attrs["spelling"] for x in b.interp.expand(st, st.heap[p].attrs["children"])
           for o in [st.heap[x]] if o.attrs["type"] == E(L.TTYPE, "COMMENT")]
    want = ids
    for s, v in b.call([st], L.FMT + ".format_comment_lines", [p, b.context(st), U(("width",))]):
      rep.count("comments")
      if isinstance(v, Sig):
        raised(rep, b, s, v, c, info.where, sh, "reading the lines of")
        continue
      got = [b.interp.resolve(s, x) for x in b.interp.expand(s, v)]
      said = "a comment of %d line(s) becomes %s (%s)" % (len(want), [show(x)[:120] for x in got], at(s))
      marked = [x for x in got if holds_kind(x, "mline")]
      if marked:
        parsed = {k for x in got for k in kinds(x, "parsed")}
        good = len(got) == 2 and all(holds_kind(x, "mline", i) for i, x in enumerate(got)) and len(parsed) == 1
        if good:
          (pz,) = parsed
          good = len(pz.key) > 1 and each_once(pz.key[1].items, want)
        if not good:
          rep.add("C07", "comment text", c, info.where, said)
      elif not each_once(got, want):
        rep.add("C07", "comment text", c, info.where, said)
  return rep


def each_once(got, want):
  return len(got) == len(want) and all(holds(g, w) for g, w in zip(got, want))


def kinds(v, kind):
  out = []
  if isinstance(v, U):
    if v.key[0] == kind:
      out.append(v)
    for k in v.key:
      out.extend(kinds(k, kind))
  elif isinstance(v, Tup):
    for k in v.items:
      out.extend(kinds(k, kind))
  return out


def holds_kind(v, kind, i=None):
  return any(i is None or k.key[-1] == i for k in kinds(v, kind))


# ---------------------------------------------------------------- the same text

MAIN = "cmakelang.format.__main__"


def same_text(model):
  """The text whose bytes are copied is the text whose tokens hold the offsets."""
  from .absint import Interp, State, ModV
  rep = Report()
  info = model.function(MAIN + ".process_file")

  class P(L.TextPlugin):
    CONCRETE = True

    def on_inline(self, st, f, args, kwargs, node):
      n = f.node.name
      a = [self.interp.resolve(st, x) for x in args] + [self.interp.resolve(st, x) for x in kwargs.values()]
      if n in ("tokenize", "write_tree", "layout_tree"):
        st.p.d["ev"] = st.p.d["ev"] + ((n,) + tuple(a),)
        return [(st, U((n,)))]
      return L.TextPlugin.on_inline(self, st, f, args, kwargs, node)

  p = P(inline_mods=[MAIN])
  p.initial = lambda: L.PState({"ev": ()})
  it = Interp(model, p)
  st = State()
  st.p = p.initial()
  st.frames[0] = {"$mod": ModV(info.mod)}
  st.cur = 0
  args = [L.CONFIG, SOURCE] + [NONE] * (len(info.params) - 2)
  written = 0
  for s, v in it.inline(st, FnV(info, None), args, {}, info.node):
    if isinstance(v, Sig):
      continue
    toks = [e for e in s.p.d["ev"] if e[0] == "tokenize"]
    outs = [e for e in s.p.d["ev"] if e[0] == "write_tree"]
    if not outs:
      rep.add("C10", "same text", "__main__.process_file", info.where, "a result is returned which was not written by write_tree() (%s)" % at(s))
      continue
    written += 1
    text = [a for e in toks for a in e[1:2]]
    copied = [a for e in outs for a in e[1:] if holds(a, SOURCE)]
    if not toks or not copied or any(t != c for t in text for c in copied):
      rep.add("C10", "same text", "__main__.process_file", info.where,
              "%s is tokenized, but text is copied from %s" % ([show(x) for x in text], [show(x) for x in copied]))
    if not holds_kind(it.resolve(s, v), "write_tree"):
      rep.add("C10", "same text", "__main__.process_file", info.where, "the written text is not what is returned: %s" % show(v)[:200])
  rep.count("formatted texts", written)
  return rep
