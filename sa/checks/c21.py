"""C21: the report and suppression protocol of cmake-lint.

The code which records, suppresses, releases and lists lint (FileContext,
GlobalContext) and the code which opens and closes suppressions (LintChecker)
are interpreted abstractly: lint ids are opaque names known or unknown to the
data base, locations are ordered line numbers, and parse trees are skeletons
with a pragma at body scope, in nested and sibling bodies and within a
statement.  Each rule compares the records that survive with the scope that
the pragma has."""
import ast

from ..absint import (C, E, Tup, NTup, Ref, U, Sig, Inst, Lst, Dct, NONE, TRUE, FALSE, ExcV,
                      Ext, show, AnalysisError)
from ..cli import FilePlugin
from ..model import AnchorError
from ..session import Session

UTIL = "cmakelang.lint.lint_util"
BASIC = "cmakelang.lint.basic_checker"
COMMON = "cmakelang.parse.common"
LEX = "cmakelang.lex"
LINT = "cmakelang.lint.__main__"
DB = U(("lintdb",))
KNOWN = ("CAAA", "WBBB", "EDDD", "RXXX")
A, B, D, X = [C(x) for x in KNOWN]


class P(FilePlugin):

  CONCRETE = True
  MAXREC = 12

  def __init__(self, disabled=()):
    FilePlugin.__init__(self, inline_mods=[UTIL, BASIC, LEX, COMMON, "cmakelang.parse.util",
                                           "cmakelang.parse.simple_nodes",
                                           "cmakelang.parse.statement_node",
                                           "cmakelang.parse.body_nodes"])
    self.handlers["cmakelang.lint.lintdb.get_database"] = lambda st, a, k, n: [(st, DB)]
    self.disabled = disabled
    self.walk = False
    self.recorded = 0

  def initial(self):
    p = FilePlugin.initial(self)
    p.d["out"] = ()
    return p

  def may_raise(self, st, f, node):
    return False

  def on_inline(self, st, info, args, kwargs, node):
    if self.walk and info.qual == UTIL + ".FileContext.record_lint":
      self.recorded += 1
      st.p.d["rec"] = st.p.d.get("rec", ()) + (tuple(args[1:2]),)
      return [(st, NONE)]
    if self.walk and info.klass is not None and info.klass.qual == BASIC + ".LintChecker" \
        and info.qual.rsplit(".", 1)[-1] in self.skip:
      return [(st, NONE)]
    return FilePlugin.on_inline(self, st, info, args, kwargs, node)

  skip = ()

  def on_attr(self, st, base, name, node):
    if isinstance(base, U):
      if base.key[0] == "cfg" and name in ("disabled_codes",):
        return [(st, base.key[-1])]
      if base.key[0] == "cfg":
        return [(st, U(("cfg", name, base.key[-1])))]
      if base.key[0] == "spec" and name == "idstr":
        return [(st, base.key[1])]
    return FilePlugin.on_attr(self, st, base, name, node)

  def on_subscript(self, st, base, idx, node):
    if base == DB:
      if isinstance(idx, C) and idx.v in KNOWN:
        return [(st, U(("spec", idx)))]
      return [(st, Sig("raise", ExcV("KeyError", NONE)))]
    return None

  def on_compare(self, st, op, a, b, node):
    if b == DB and isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, C):
      return [(st, (a.v in KNOWN) == isinstance(op, ast.In))]
    return None

  def on_truth(self, st, val, node):
    return None

  def on_method(self, st, base, name, args, kwargs, node):
    if base == U(("sink",)):
      if name in ("write", "writelines"):
        st.p.d["out"] = st.p.d["out"] + (args[0],)
      return [(st, NONE)]
    if base == DB and name == "get":
      k = args[0]
      return [(st, U(("spec", k)) if k.v in KNOWN else (args[1] if len(args) > 1 else NONE))]
    return FilePlugin.on_method(self, st, base, name, args, kwargs, node)

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, U) and f.key[0] == "attr" and f.key[1] == U(("sink",)):
      return self.on_method(st, f.key[1], f.key[2], args, kwargs, node)
    if isinstance(f, U) and f.key[0] == "attr" and f.key[1] == DB:
      return self.on_method(st, DB, f.key[2], args, kwargs, node)
    if isinstance(f, Ext) and f.name in ("collections.defaultdict", "defaultdict"):
      d = Dct({})
      r = self.interp.alloc(st, self.interp.site(st, node, "defaultdict"), d)
      self.defaults[r] = args[0] if args else NONE
      st.p.d["defaults"] = st.p.d.get("defaults", ()) + ((r, args[0] if args else NONE),)
      return [(st, r)]
    if isinstance(f, Ext) and f.name in ("collections.Counter", "Counter") and not args:
      r = self.interp.alloc(st, self.interp.site(st, node, "Counter"), Dct({}))
      st.p.d["defaults"] = st.p.d.get("defaults", ()) + ((r, Ext("int")),)
      return [(st, r)]
    return FilePlugin.on_call(self, st, f, args, kwargs, node)

  defaults = {}


class P2(P):
  """Adds defaultdict reads."""

  def on_subscript(self, st, base, idx, node):
    if isinstance(base, Ref) and isinstance(st.heap.get(base), Dct):
      for r, d in st.p.d.get("defaults", ()):
        if r == base and idx not in st.heap[base].items and isinstance(idx, C):
          if d == Ext("int"):
            v = C(0)
          elif d in (Ext("list"), Ext("set")):
            v = self.interp._mklist(st, node, [], "dd")
          else:
            return None
          o = st.heap[base]
          items = dict(o.items)
          items[idx] = v
          st.heap[base] = Dct(items, o.open)
          return [(st, v)]
    return P.on_subscript(self, st, base, idx, node)


def cfg(disabled=()):
  return U(("cfg", "root", Tup(tuple(disabled))))


class Case:
  """One run of the protocol."""

  def __init__(self, ctx, name, disabled=()):
    self.ctx = ctx
    self.name = name
    self.p = P2()
    self.s = Session(ctx.model, self.p, UTIL)
    self.st = self.s.states[0]
    self.where = ctx.model.classes[UTIL + ".FileContext"].where \
        if hasattr(ctx.model.classes[UTIL + ".FileContext"], "where") else "cmakelang/lint/lint_util.py"
    self.sink = U(("sink",))
    self.g = self.s.new(self.st, UTIL + ".GlobalContext", self.sink)
    self.dead = False
    ctx.count("scenarios")

  def do(self, recv, name, *args, **kwargs):
    """Call a method; the protocol is deterministic on such input."""
    if self.dead:
      return NONE
    self.ctx.count("protocol_calls")
    try:
      res = self.s.call(self.st, recv, name, *args, **kwargs)
    except AnalysisError as e:
      return self.give_up(name, e)
    bad = [v for s, v in res if isinstance(v, Sig)]
    if bad:
      self.ctx.violation("raises", "%s [%s]" % (name, self.name), self.where,
                         "%s raises %s" % (name, bad[0].val.cls if bad[0].val is not None else "?"))
      self.dead = True
      return NONE
    if len(res) != 1:
      return self.give_up(name, "%d outcomes: %s" % (
          len(res), " | ".join("; ".join(s.path(6)) for s, _ in res[:3])))
    self.st = res[0][0]
    return self.s.it.resolve(self.st, res[0][1])

  def give_up(self, name, why):
    self.ctx.undecide("%s [%s]: %s" % (name, self.name, why))
    self.dead = True
    return NONE

  def file(self, path, disabled=()):
    return self.do(self.g, "get_file_ctx", C(path), cfg(disabled))

  def rec(self, fc, idstr, *loc):
    kw = {}
    if loc:
      kw["location"] = Tup(tuple(C(x) for x in loc))
    self.do(fc, "record_lint", idstr, **kw)

  def ids(self, items):
    return self.s.lst(self.st, items)

  def items(self, v):
    v = self.s.it.resolve(self.st, v)
    return self.s.it.expand(self.st, v)

  def lint(self, fc):
    """(id, line|None) of the records listed."""
    out = []
    got = self.do(fc, "get_lint")
    if self.dead:
      return out
    for r in self.items(got):
      o = self.st.heap.get(r) if isinstance(r, Ref) else None
      if not isinstance(o, Inst):
        self.give_up("get_lint", "lists %s" % show(r))
        return []
      spec = self.s.it.resolve(self.st, o.attrs.get("spec", NONE))
      loc = self.s.it.resolve(self.st, o.attrs.get("location", NONE))
      i = spec.key[1].v if isinstance(spec, U) and spec.key[0] == "spec" else show(spec)
      l = loc.items[0].v if isinstance(loc, Tup) and loc.items else None
      out.append((i, l))
    return out

  def expect(self, rule, construct, got, want, what):
    self.ctx.count("obligations")
    if self.dead:
      return
    if sorted(got, key=repr) != sorted(want, key=repr):
      lost = [x for x in want if x not in got]
      extra = [x for x in got if x not in want]
      self.ctx.violation(rule, "%s [%s]" % (construct, self.name), self.where,
                         "%s: missing %s, unexpected %s" % (what, lost, extra))


def protocol(ctx):
  F = "FileContext"
  # disabled by configuration, for one of two files
  c = Case(ctx, "disabled by configuration")
  f, g = c.file("a", [A]), c.file("b")
  for fc in (f, g):
    c.rec(fc, A, 3)
    c.rec(fc, B, 3)
    c.rec(fc, A)
  c.expect("disabled-reported", F, c.lint(f), [("WBBB", 3)], "file with the rule disabled")
  c.expect("config-leaks", F, c.lint(g), [("CAAA", 3), ("WBBB", 3), ("CAAA", None)],
           "file with the rule enabled")
  # one scope, lint recorded while the scope is active
  c = Case(ctx, "recorded while suppressed")
  f, g = c.file("a"), c.file("b")
  c.do(f, "suppress", C(3), c.ids([A]))
  c.rec(f, A, 5)
  c.rec(f, B, 5)
  c.rec(g, A, 5)
  c.do(f, "unsuppress", C(8), c.ids([A]))
  c.rec(f, A, 9)
  c.expect("suppression", F, c.lint(f), [("WBBB", 5), ("CAAA", 9)], "one scope")
  c.expect("suppression-leaks", F, c.lint(g), [("CAAA", 5)], "another file")
  # recorded before and after the scope was opened and closed
  for order in ("before", "after"):
    c = Case(ctx, "recorded %s the scopes are known" % order)
    f, g = c.file("a"), c.file("b")
    def recs():
      for fc in (f, g):
        for l in (1, 5, 9):
          c.rec(fc, A, l)
          c.rec(fc, B, l)
    if order == "before":
      recs()
    c.do(f, "suppress", C(3), c.ids([A]))
    c.do(f, "unsuppress", C(8), c.ids([A]))
    if order == "after":
      recs()
    every = [(i, l) for i in ("CAAA", "WBBB") for l in (1, 5, 9)]
    c.expect("suppression", F, c.lint(f), [x for x in every if x != ("CAAA", 5)], "one scope")
    c.expect("unstable", F, c.lint(f), [x for x in every if x != ("CAAA", 5)],
             "listing the lint a second time")
    c.expect("suppression-leaks", F, c.lint(g), every, "another file")
  # nested scopes which suppress the same rule: inner close keeps outer
  for late in (False, True):
    c = Case(ctx, "nested scopes, %s" % ("inner opened after outer closed" if late
                                         else "inner opened within outer"))
    f = c.file("a")
    for l in (1, 4, 7, 10, 13):
      for i in (A, B, D):
        c.rec(f, i, l)
    outer = c.do(f, "suppress", C(2), c.ids([A, D]))
    if late:
      c.do(f, "unsuppress", C(12), outer)
    inner = c.do(f, "suppress", C(5), c.ids([A, B]))
    c.do(f, "unsuppress", C(9), inner)
    if not late:
      c.do(f, "unsuppress", C(12), outer)
    for i in (A, B, D):
      c.rec(f, i, 14)
    want = [(i, l) for l in (1, 4, 7, 10, 13, 14) for i in ("CAAA", "WBBB", "EDDD")
            if not (i in ("CAAA", "EDDD") and 2 <= l < 12) and not (i == "WBBB" and 5 <= l < 9)]
    c.expect("nested-suppression", F, c.lint(f), want, "nested scopes")
  # sibling scopes
  c = Case(ctx, "sibling scopes")
  f = c.file("a")
  for l in (1, 3, 6, 9, 12):
    c.rec(f, A, l)
  for b, e in ((2, 5), (8, 11)):
    c.do(f, "unsuppress", C(e), c.do(f, "suppress", C(b), c.ids([A])))
  c.expect("suppression", F, c.lint(f), [("CAAA", 1), ("CAAA", 6), ("CAAA", 12)], "sibling scopes")
  # a rule named twice
  c = Case(ctx, "a rule named twice")
  f = c.file("a")
  c.do(f, "unsuppress", C(5), c.do(f, "suppress", C(2), c.ids([A, A])))
  c.rec(f, A, 3)
  c.rec(f, A, 7)
  c.expect("suppression", F, c.lint(f), [("CAAA", 7)], "a rule named twice in one pragma")
  # counting
  c = Case(ctx, "counting")
  f, g, h = c.file("a"), c.file("b"), c.file("c")
  c.rec(f, A, 3)
  c.rec(f, A, 3)
  c.rec(f, B, 5)
  c.rec(g, B, 2)
  c.rec(g, A, 2)
  c.do(g, "unsuppress", C(3), c.do(g, "suppress", C(1), c.ids([A])))
  # all of its lint is suppressed once it was recorded
  q = c.file("d")
  c.rec(q, A, 2)
  c.do(q, "unsuppress", C(3), c.do(q, "suppress", C(1), c.ids([A])))
  shown = {}
  for key, fc in (("a", f), ("b", g), ("c", h), ("d", q)):
    c.st.p.d["out"] = ()
    c.do(fc, "writeout", c.sink)
    shown[key] = len(c.st.p.d["out"])
    n = len(c.lint(fc))
    c.expect("report-lines", "FileContext.writeout", [shown[key]], [n], "lines written for %s" % key)
    hl = c.do(fc, "has_lint")
    c.expect("has-lint", "FileContext.has_lint", [show(hl)], [show(C(bool(n)))], "answer for %d records" % n)
  counts = c.do(c.g, "get_category_counts")
  o = c.st.heap.get(counts)
  if not c.dead:
    got = {k.v: c.s.it.resolve(c.st, v).v for k, v in o.items.items() if isinstance(v, C) and v.v}
    c.expect("category-counts", "GlobalContext.get_category_counts", list(got.items()),
             [("C", 2), ("W", 2)], "counts of 2 conventions and 2 warnings")
  # a file named twice is reported and counted alike
  c = Case(ctx, "a file named twice")
  total = 0
  for _ in range(2):
    f = c.file("a")
    c.rec(f, A, 3)
    c.st.p.d["out"] = ()
    c.do(f, "writeout", c.sink)
    total += len(c.st.p.d["out"])
  counts = c.do(c.g, "get_category_counts")
  if not c.dead:
    o = c.st.heap.get(counts)
    c.expect("category-counts", "GlobalContext.get_category_counts",
             [sum(v.v for v in o.items.values() if isinstance(v, C))], [total],
             "reported against counted records")
    f = c.file("a")
    c.do(f, "suppress", C(1), c.ids([A]))
    g = c.file("a")
    c.rec(g, A, 3)
    c.expect("suppression-leaks", "GlobalContext.get_file_ctx", [x for x in c.lint(g) if x == ("CAAA", 3)],
             [("CAAA", 3)], "a suppression left open by an earlier run over the file")


# ---------------------------------------------------------------- parse trees

class TreeCase(Case):

  def __init__(self, ctx, name):
    Case.__init__(self, ctx, name)
    self.line = 1
    self.p.skip = ("check_variable_assignments", "check_variable_references")
    self.checker_cls = BASIC + ".LintChecker"

  def tok(self, kind, text):
    loc = NTup((C(self.line), C(0 if text.startswith(" ") else 4), C(0)), ("line", "col", "offset"))
    t = self.s.new(self.st, LEX + ".Token", E(LEX + ".TokenType", kind), C(text), C(0), loc, loc)
    self.line += text.count("\n")
    return t

  def node(self, qual, kind, children, *args, **attrs):
    n = self.s.new(self.st, qual, *args)
    o = self.st.heap[n]
    a = dict(o.attrs)
    a.update(attrs)
    a["children"] = self.s.lst(self.st, children)
    a["node_type"] = E(COMMON + ".NodeType", kind)
    a["parent"] = NONE
    self.st.heap[n] = Inst(o.klass, a)
    for ch in children:
      oc = self.st.heap[ch]
      if "parent" in oc.attrs:
        b = dict(oc.attrs)
        b["parent"] = n
        self.st.heap[ch] = Inst(oc.klass, b)
    return n

  def nl(self, n=1, indent=""):
    ch = [self.tok("NEWLINE", "\n") for _ in range(n)]
    if indent:
      ch.append(self.tok("WHITESPACE", indent))
    return self.node("cmakelang.parse.simple_nodes.WhitespaceNode", "WHITESPACE", ch)

  def comment(self, *lines):
    ch = []
    for i, l in enumerate(lines):
      if i:
        ch.append(self.tok("NEWLINE", "\n"))
      ch.append(self.tok("COMMENT", l))
    return self.node("cmakelang.parse.simple_nodes.CommentNode", "COMMENT", ch)

  def stmt(self, name, args=None):
    ft = self.tok("WORD", name)
    fn = self.node("cmakelang.parse.statement_node.FunctionNameNode", "FUNNAME", [ft], token=ft)
    lp = self.node(COMMON + ".TreeNode", "LPAREN", [self.tok("LEFT_PAREN", "(")], E(COMMON + ".NodeType", "LPAREN"))
    inner = args() if args else []
    ag = self.node(COMMON + ".TreeNode", "ARGGROUP", inner, E(COMMON + ".NodeType", "ARGGROUP"))
    rp = self.node(COMMON + ".TreeNode", "RPAREN", [self.tok("RIGHT_PAREN", ")")], E(COMMON + ".NodeType", "RPAREN"))
    return self.node("cmakelang.parse.statement_node.StatementNode", "STATEMENT", [fn, lp, ag, rp],
                     funnode=fn, argtree=ag)

  def body(self, children):
    return self.node("cmakelang.parse.body_nodes.BodyNode", "BODY", children)

  def flow(self, mk_body, indent=""):
    o = self.stmt("if")
    b = self.body(mk_body())
    c = self.stmt("endif")
    return self.node("cmakelang.parse.body_nodes.IfBlockNode", "FLOW_CONTROL", [o, b, c],
                     blocks=self.s.lst(self.st, [Tup((o, b, c))]))

  def judge(self, root, spans, last):
    """Every rule is recorded on every line, before and after the tree is
    walked; spans: id -> lines on which it must stay silent."""
    told = []
    for when in ("before", "after"):
      st0 = self.st.copy()
      if self.dead:
        return told
      f = self.file("f")
      def recs():
        for l in range(1, last + 1):
          for i in (A, B, D, X):
            self.rec(f, i, l)
      if when == "before":
        recs()
      chk = self.s.new(self.st, self.checker_cls, cfg(), f)
      self.p.walk = True
      try:
        res = self.s.call(self.st, chk, "check_parse_tree", root)
      except AnalysisError as e:
        self.give_up("check_parse_tree", e)
        res = []
      self.p.walk = False
      self.ctx.count("tree_walks")
      bad = [v for s, v in res if isinstance(v, Sig)]
      good = [s for s, v in res if not isinstance(v, Sig)]
      if bad:
        self.ctx.violation("raises", "LintChecker [%s]" % self.name, self.where,
                           "walking the tree raises %s" % bad[0].val.cls)
      self.ctx.count("walk_paths", len(good))
      for s in good[:40]:
        self.st = s
        told.append({x[0].v for x in s.p.d.get("rec", ()) if x and isinstance(x[0], C)})
        if when == "after":
          recs()
        want = [(i, l) for l in range(1, last + 1) for i in KNOWN if l not in spans.get(i, ())]
        free = spans.get("free", ())
        got = [x for x in self.lint(f) if x not in free]
        want = [x for x in want if x not in free]
        self.expect("pragma-scope", "LintChecker, lint recorded %s the walk" % when, got, want,
                    "lint listed")
      self.st = st0
    return told


PRAGMA = "# cmake-lint: disable=%s"


def trees(ctx):
  # file scope
  for trailing in (True, False):
    c = TreeCase(ctx, "pragma at file scope, %s" % ("final newline" if trailing else "no final newline"))
    ch = [c.comment("# first"), c.nl(2), c.stmt("message"), c.nl(2)]
    p0 = c.line
    ch += [c.comment(PRAGMA % "CAAA"), c.nl(), c.stmt("message"), c.nl(), c.stmt("message")]
    if trailing:
      ch += [c.nl()]
    last = c.line - (1 if trailing else 0)
    c.judge(c.body(ch), {"CAAA": range(p0, last + 1)}, last)
  # nested scope, two ids, unrelated pragma outside
  for outer in (None, "EDDD", "CAAA"):
    c = TreeCase(ctx, "pragma in a nested scope%s" % (
        "" if outer is None else ", %s outer pragma" % ("same" if outer == "CAAA" else "unrelated")))
    ch = []
    spans = {}
    o0 = 1
    if outer:
      ch += [c.comment(PRAGMA % outer), c.nl()]
    ch += [c.stmt("message"), c.nl()]
    lines = {}
    def mk():
      out = [c.nl(1, "  ")]
      out += [c.stmt("message"), c.nl(1, "  ")]
      lines["b"] = c.line
      out += [c.comment(PRAGMA % "CAAA,WBBB"), c.nl(1, "  "), c.stmt("message"), c.nl(1, "  "),
              c.stmt("message")]
      lines["e"] = c.line
      out += [c.nl()]
      return out
    ch += [c.flow(mk), c.nl(), c.stmt("message"), c.nl()]
    last = c.line - 1
    spans["CAAA"] = spans["WBBB"] = range(lines["b"], lines["e"] + 1)
    if outer:
      spans[outer] = range(o0, last + 1)
    c.judge(c.body(ch), spans, last)
  # the nested scope's closing statement is indented
  c = TreeCase(ctx, "closing statement indented")
  lines = {}
  def mk2():
    out = [c.nl(1, "    ")]
    lines["b"] = c.line
    out += [c.comment(PRAGMA % "CAAA"), c.nl(1, "    "), c.stmt("message")]
    lines["e"] = c.line
    out += [c.nl(1, "  ")]
    return out
  def mk1():
    return [c.nl(1, "  "), c.flow(mk2), c.nl()]
  ch = [c.flow(mk1), c.nl()]
  c.judge(c.body(ch), {"CAAA": range(lines["b"], lines["e"] + 1)}, c.line - 1)
  # sibling scopes
  c = TreeCase(ctx, "pragma in the first of two scopes")
  def mk3():
    out = [c.nl(1, "  ")]
    lines["b"] = c.line
    out += [c.comment(PRAGMA % "CAAA"), c.nl(1, "  "), c.stmt("message")]
    lines["e"] = c.line
    out += [c.nl()]
    return out
  def mk4():
    return [c.nl(1, "  "), c.stmt("message"), c.nl()]
  ch = [c.flow(mk3), c.nl(), c.flow(mk4), c.nl()]
  c.judge(c.body(ch), {"CAAA": range(lines["b"], lines["e"] + 1)}, c.line - 1)
  # two pragmas in one body: for two rules, and twice for the same
  for a, b, outer in (("CAAA", "WBBB", None), ("CAAA", "CAAA", None), ("CAAA", "CAAA,WBBB", "CAAA"),
                      ("CAAA,CAAA", "WBBB", "CAAA")):
    c = TreeCase(ctx, "pragmas %s and %s in a nested scope%s" % (a, b, ", %s outside" % outer if outer else ""))
    ch = []
    if outer:
      ch += [c.comment(PRAGMA % outer), c.nl()]
    lines = {}
    def mk5():
      out = [c.nl(1, "  "), c.stmt("message"), c.nl(1, "  ")]
      lines["a"] = c.line
      out += [c.comment(PRAGMA % a), c.nl(1, "  "), c.stmt("message"), c.nl(1, "  ")]
      lines["b"] = c.line
      out += [c.comment(PRAGMA % b), c.nl(1, "  "), c.stmt("message")]
      lines["e"] = c.line
      return out + [c.nl()]
    ch += [c.flow(mk5), c.nl(), c.stmt("message"), c.nl()]
    last = c.line - 1
    spans = {}
    for what, l in ((a, "a"), (b, "b")):
      for i in what.split(","):
        spans[i] = set(spans.get(i, ())) | set(range(lines[l], lines["e"] + 1))
    if outer:
      spans[outer] = range(1, last + 1)
    c.judge(c.body(ch), spans, last)
  # within a statement, below an outer pragma for another rule or without one
  for outer in (None, "EDDD", "CAAA"):
    c = TreeCase(ctx, "pragma within a statement%s" % (", outer pragma for %s" % outer if outer else ""))
    ch = []
    if outer:
      ch += [c.comment(PRAGMA % outer), c.nl()]
    ch += [c.stmt("message"), c.nl()]
    def args():
      out = [c.nl(1, "  ")]
      lines["b"] = c.line
      out += [c.comment("# words", PRAGMA % "CAAA,CAAA")]
      lines["e"] = c.line
      out += [c.nl(1, "  "), c.nl(1, "  ")]
      return out
    ch += [c.stmt("message", args), c.nl(), c.stmt("message"), c.nl()]
    last = c.line - 1
    spans = {"CAAA": [lines["e"]],
             # the rest of the comment may be covered as well
             "free": [("CAAA", lines["b"])]}
    if outer:
      spans[outer] = range(1, last + 1)
    c.judge(c.body(ch), spans, last)
  # unknown ids and unknown pragmas silence nothing
  base = None
  for text, n in (("# words words", None), (PRAGMA % "ZZZZ", 1), ("# cmake-lint: silly", 1), ("# cmake-lint: silly=CAAA", 1),
                  ("# cmake-lnt: disable=CAAA", 0), ("# words disable=CAAA", 0),
                  (PRAGMA % "ZZZZ,CAAA", -1)):
    c = TreeCase(ctx, "comment %r" % text)
    ch = [c.comment(text), c.nl(), c.stmt("message"), c.nl()]
    seen = c.judge(c.body(ch), {"CAAA": range(1, 3)} if n == -1 else {}, c.line - 1)
    if n is None:
      base = seen[0] if seen else set()
    ctx.count("obligations")
    if n and any(not x - base for x in seen):
      ctx.violation("bad-pragma-silent", "LintChecker [%s]" % c.name, c.where,
                    "an unknown pragma or rule name is not reported")


def who(ctx):
  """Only the protocol touches the records and suppressions of a file."""
  m = ctx.model
  k = m.classes.get(UTIL + ".FileContext")
  if k is None:
    raise AnchorError("FileContext not found")
  private = set()
  for fi in k.members.values():
    if isinstance(fi, tuple):
      continue
    for n in ast.walk(fi.node):
      if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" \
          and n.attr.startswith("_") and isinstance(n.ctx, ast.Store):
        private.add(n.attr)
  ctx.count("private_fields", len(private))
  for info in m.functions.values():
    if info.klass is k:
      continue
    ctx.count("functions_searched")
    for n in ast.walk(info.node):
      if isinstance(n, ast.Attribute) and n.attr in private and not (
          isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
        ctx.violation("bypasses-protocol", "%s: %s" % (info.qual, n.attr),
                      "%s:%d" % (info.mod.relpath, n.lineno),
                      "touches the private %s of a file's lint context" % n.attr)
      if isinstance(n, ast.Call):
        e = m.resolve_expr(info.mod, n.func)
        if getattr(e, "qual", None) == UTIL + ".LintRecord":
          ctx.violation("bypasses-protocol", info.qual, "%s:%d" % (info.mod.relpath, n.lineno),
                        "creates a lint record outside of the file's lint context")
  ctx.expect("functions_searched", 100)


def run(ctx):
  ctx.rule("a rule disabled by configuration is never recorded for that file, and only for that file")
  ctx.rule("a suppression hides its rules, and no other, from the pragma to the end of its scope, "
           "for lint recorded before, during or after the walk of the tree")
  ctx.rule("nested and sibling scopes neither end nor extend one another")
  ctx.rule("lines written, has_lint and category counts agree with the listed records")
  ctx.rule("nothing outside of the protocol touches records or suppressions")
  protocol(ctx)
  trees(ctx)
  who(ctx)
  ctx.expect("scenarios", 15)
  ctx.expect("tree_walks", 15)
  ctx.expect("obligations", 40)
