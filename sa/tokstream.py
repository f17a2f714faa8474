"""Token-stream analysis of the parser (properties C01-C04).

Abstract domain.  There is one token stream.  A path state holds
  log    what has been taken from the stream since the analysed function was
         entered: tokens, spans (contiguous pieces owned by one subtree; `ne` =
         certainly non-empty, `me` = possibly empty) and position marks;
  ahead  tokens known to be next (each a symbolic token whose kind is a set of
         token kinds refined by the branches taken);
  end    whether the stream is known to end after `ahead`.
Tree nodes are ordinary heap objects; the tokens a value owns are read off its
`children` lists.  A parser function is analysed once per calling context
(kind-set of the next token, constant arguments) and summarised; recursion and
dynamic dispatch go through the summaries, iterated to a fixpoint.
"""
import ast
from .model import FunctionInfo, Klass, walk_own, dotted, AnchorError
from .absint import *
from .absint import PState, Plugin, Interp, Sig
from . import alias

import io
import os
import pickle
import sys
import time
DEBUG = os.environ.get('SA_DEBUG')
STREAM = U(("stream",))
LEX = "cmakelang.lex.TokenType"
NT = "cmakelang.parse.common.NodeType"

WS = frozenset(["WHITESPACE", "NEWLINE"])
COMMENTISH = frozenset(["COMMENT", "BRACKET_COMMENT"])
ONOFF = frozenset(["FORMAT_ON", "FORMAT_OFF"])


def is_kind(v, kind):
  return isinstance(v, U) and v.key[0] == "fresh" and v.key[1][0] == kind


def is_tok(v):
  return is_kind(v, "tok")


def is_span(v):
  return is_kind(v, "span")


def is_lost(v):
  """A run of taken tokens that nothing refers to any more."""
  return is_kind(v, "lost")


def nonempty(v):
  return is_tok(v) or (is_kind(v, "span") or is_kind(v, "lost")) and v.key[1][1] == "ne"


def is_mark(v):
  return is_kind(v, "mark")


def mk_run(kinds):
  """Zero or more upcoming tokens of the given kinds."""
  return U(("run",) + tuple(sorted(kinds)))


def is_run(v):
  return isinstance(v, U) and v.key[0] == "run"


def run_kinds(v):
  return frozenset(v.key[1:])


class TS(PState):
  __slots__ = ()

  def copy(self):
    return TS(dict(self.d))

  def roots(self):
    out = list(self.d["log"]) + list(self.d["ahead"])
    for k in sorted(x for x in self.d if x.startswith("lm:")):
      out.append(self.d[k])
    if "nodearg" in self.d:
      out.append(self.d["nodearg"])
    return out

  def subst(self, f):
    for k in ("log", "ahead"):
      self.d[k] = tuple(f(x) for x in self.d[k])
    for k in list(self.d):
      if k.startswith("lm:") or k == "nodearg":
        self.d[k] = f(self.d[k])

  @property
  def log(self):
    return self.d["log"]

  @log.setter
  def log(self, v):
    self.d["log"] = tuple(v)

  @property
  def ahead(self):
    return self.d["ahead"]

  @ahead.setter
  def ahead(self, v):
    self.d["ahead"] = tuple(v)

  @property
  def end(self):
    return self.d["end"]

  @end.setter
  def end(self, v):
    self.d["end"] = v


class TokInterp(Interp):
  INT_WIDEN = 6
  LOOP_VARIANTS = 6
  MERGE_AT = 16

  def st_For(self, node, st):
    out = []
    for s, itv in self.ev(node.iter, st):
      if isinstance(itv, Sig):
        out.append((s, itv))
        continue
      itv = self.resolve(s, itv)
      if self.havoc_loop(node, s, itv):
        out.append((s, None))
      elif itv == STREAM:
        out.extend(self.for_stream(node, s))
      elif isinstance(itv, GenV):
        out.extend(self.for_gen(node, s, itv))
      else:
        out.extend(self.for_segs(node, s, self.segments(s, itv, node)))
    return out

  def contains(self, st, x, coll, node):
    x, coll = self.resolve(st, x), self.resolve(st, coll)
    p = self.plugin
    if x == NONE and self.open_table(st, coll):
      return [(st, False)]      # tables of words hold strings
    out = super().contains(st, x, coll, node)
    t = p.spelled(st, x)
    if t is None:
      return out
    return [(s, b) for s, b in out if not b or p.restrict_spelled(s, t, self.words(s, coll))]

  def equal(self, st, a, b, node, identity=False):
    out = super().equal(st, a, b, node, identity)
    p = self.plugin
    for x, y in ((a, b), (b, a)):
      t = p.spelled(st, x)
      if t is not None:
        out = [(s, r) for s, r in out if not r or p.restrict_spelled(s, t, (y,))]
    return out

  def for_segs(self, node, st, segs):
    """A loop which only looks for an element of an unknown list gives the same
    answer whenever it is repeated for the same list and the same operands."""
    out = [(st, None)]
    names = self.search_loop(node)
    if names is None or len(segs) == 0:
      return super().for_segs(node, st, segs)
    for k, seg in enumerate(segs):
      nxt = []
      for s, sig in out:
        if sig is not None:
          nxt.append((s, sig))
          continue
        fact = self.loop_fact(node, s, seg, names)
        t = s.truth.get(fact) if fact is not None else None
        if t is False:
          nxt.append((s, None))
          continue
        for s2, sg in super().for_segs(node, s, [seg]):
          if fact is not None:
            if sg is None and t is True:
              continue
            s2.truth[fact] = sg is not None
          nxt.append((s2, sg))
      out = nxt
    return out

  def search_loop(self, node):
    """Names used by the body of a loop that stores nothing and is left by
    return only; None if it is not such a loop."""
    memo = self.__dict__.setdefault("_search", {})
    if id(node) in memo:
      return memo[id(node)]
    if node.orelse or not isinstance(node.target, ast.Name):
      memo[id(node)] = None
      return None
    names, ok, ret = set(), True, False
    for n in (x for b in node.body for x in ast.walk(b)):
      if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Break, ast.With, ast.Try, ast.Delete, ast.Lambda, ast.For,
                        ast.While, ast.FunctionDef)) or isinstance(
          getattr(n, "ctx", None), (ast.Store, ast.Del)):
        ok = False
      elif isinstance(n, ast.Return):
        ret = True
      elif isinstance(n, ast.Name) and n.id != node.target.id:
        names.add(n.id)
    memo[id(node)] = tuple(sorted(names)) if ok and ret else None
    return memo[id(node)]

  def loop_fact(self, node, st, seg, names):
    if seg[0] != "many":
      return None
    rep = getattr(seg[1], "rep", None)
    if not (isinstance(rep, U) and rep.key[0] == "elem"):
      return None
    base = rep.key[1]
    while isinstance(base, U) and base.key[0] == "sub" and base.key[2] == U(("slice", NONE, NONE, C(-1))):
      base = base.key[1]
    if not isinstance(base, U) or base == STREAM:
      return None
    ops = []
    for n in names:
      if n in st.env:
        v = self.resolve(st, st.env[n])
        if v == STREAM or isinstance(v, Ref):
          return None
        ops.append(v)
    return U(("found", C(id(node)), base) + tuple(ops))

  def open_table(self, st, coll):
    if isinstance(coll, U):
      return coll != STREAM
    o = st.heap.get(coll) if isinstance(coll, Ref) else None
    if isinstance(o, Lst):
      return all(isinstance(i, Many) and isinstance(i.v, U) or isinstance(i, (C, U)) and i != NONE for i in o.items)
    return False

  def words(self, st, coll):
    o = st.heap.get(coll) if isinstance(coll, Ref) else None
    if isinstance(coll, Tup):
      return coll.items
    if isinstance(o, Lst):
      return o.items
    if isinstance(o, Dct) and not o.open:
      return tuple(o.items)
    return (coll,)

  def havoc_loop(self, node, st, itv):
    """A loop over data that has nothing to do with the stream: forget what it
    assigns instead of iterating it."""
    p = self.plugin
    if p.relevant(st, itv) or isinstance(itv, GenV) or node.orelse:
      return False
    if isinstance(itv, (Tup, C)):
      return False
    okcalls = ("append", "extend", "add", "insert", "update", "upper", "lower", "strip", "get", "keys",
               "items", "values", "startswith", "endswith", "format", "match", "search", "group")
    stores, mut, touched = set(), set(), set()
    for n in ast.walk(node):
      if isinstance(n, (ast.Return, ast.Raise, ast.Yield, ast.YieldFrom, ast.Assert, ast.With, ast.Try,
                        ast.FunctionDef, ast.Lambda, ast.Delete, ast.While)):
        return False
      if isinstance(n, ast.Name):
        if isinstance(n.ctx, ast.Store):
          stores.add(n.id)
        elif n.id in st.env:
          v = st.env[n.id]
          par = n._parent
          if v == STREAM:
            return False
          if p.relevant(st, v):
            # only reading or extending a descriptive attribute of a node/token
            if isinstance(v, Ref) and isinstance(st.heap.get(v), Lst):
              return False
            if not (isinstance(par, ast.Attribute) and par.attr != "children" and isinstance(par.ctx, ast.Load)):
              return False
            if isinstance(par._parent, ast.Call) and par._parent.func is par:
              return False
            if isinstance(v, Ref):
              touched.add((v, par.attr))
            continue
          if isinstance(v, Ref):
            if not isinstance(st.heap.get(v), Lst):
              return False
            mut.add(v)
      if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and n.func.attr in okcalls):
        return False
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
        return False
      if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and not isinstance(n.value, ast.Name):
        return False
    for r, attr in touched:
      o = st.heap[r]
      if isinstance(o, Inst) and attr in o.attrs:
        v = o.attrs[attr]
        if isinstance(v, Ref):
          if p.children_ref(st, v) is not None:
            return False
          mut.add(v)
    for x in stores:
      st.env[x] = self.fresh(st, self.site(st, node, x))
    for r in mut:
      o = st.heap.get(r)
      if isinstance(o, Lst):
        st.heap[r] = Lst([Many(U(("elem", r)))], o.meta)
    return True

  def for_stream(self, node, st):
    """Loop over the tokens to come.  The tokens that are skipped are summarised
    as a run of unknown length of certain kinds; the token at which the loop is
    left keeps its identity."""
    p = self.plugin
    out, fin, ended = [], [], []

    def one(s, tok, pos):
      res = []
      for s3, sg in self.assign(node.target, tok, s):
        for s4, sig in self.block(node.body, s3):
          if sig is not None and sig.kind == "break":
            fin.append(s4)
          else:
            res.append((s4, sig))
      return res
    # tokens already looked at
    pend = [(st, 0)]
    front = []
    while pend:
      s, i = pend.pop(0)
      while i < len(s.p.ahead) and is_run(s.p.ahead[i]):
        i += 1
      if i < len(s.p.ahead):
        for s4, sig in one(s, s.p.ahead[i], i):
          if sig is None or sig.kind == "continue":
            pend.append((s4, i + 1))
          else:
            out.append((s4, sig))
      elif s.p.end:
        ended.append(s)
      else:
        front.append(s)

    def step(s):
      e = s.copy()
      e.p.end = True
      s2 = s.copy()
      tok = p.newtok(s2)
      s2.p.ahead = s2.p.ahead + (tok,)
      return [(e, "exit")] + [(s3, "enter") for s3, sg in self.assign(node.target, tok, s2)]

    def body(s):
      res = []
      for s4, sig in self.block(node.body, s):
        if sig is not None and sig.kind == "break":
          fin.append(s4)
          continue
        if sig is None or sig.kind == "continue":
          ah = s4.p.ahead
          ks = p.kindset(s4, ah[-1])
          ah = ah[:-1]
          if ah and is_run(ah[-1]):
            ks = ks | run_kinds(ah[-1])
            ah = ah[:-1]
          s4.p.ahead = ah + (mk_run(ks),)
          res.append((s4, None))
        else:
          res.append((s4, sig))
      return res
    p.quiet += 1
    try:
      for s in self.reduce([(s, None) for s in front]):
        for s2, sig in self._loop(node, [s[0]], step, body, None):
          if sig is None:
            ended.append(s2)
          else:
            out.append((s2, sig))
    finally:
      p.quiet -= 1
    for s in ended:
      if node.orelse:
        out.extend(self.block(node.orelse, s))
      else:
        out.append((s, None))
    out.extend((s, None) for s in fin)
    return out


class Outcome:
  """Summary outcome: what a parser call did."""
  __slots__ = ("res", "consumed", "post", "first")

  def __init__(self, res, consumed, post, first):
    self.res = res            # ('node', qual, attrs) | ('none',) | ('other',)
    self.consumed = consumed  # 'e' | 'me' | 'ne'
    self.post = post          # 'end' | 'tok' | '?'
    self.first = first        # kinds of next token if post == 'tok'

  def key(self):
    return (self.res, self.consumed, self.post, self.first)


class Freeze(pickle.Pickler):

  def __init__(self, fp, registry):
    pickle.Pickler.__init__(self, fp, protocol=4)
    self.reg = registry

  def persistent_id(self, obj):
    return id(obj) if id(obj) in self.reg and self.reg[id(obj)] is obj else None


class Thaw(pickle.Unpickler):

  def __init__(self, fp, registry):
    pickle.Unpickler.__init__(self, fp)
    self.reg = registry

  def persistent_load(self, pid):
    return self.reg[pid]


class TokPlugin(Plugin):

  def __init__(self, model):
    super().__init__()
    self.model = model
    self.kinds = frozenset(model.enum_members.get(LEX, {}))
    if not self.kinds:
      raise AnchorError("token kinds not found")
    self.allE = frozenset(E(LEX, k) for k in self.kinds)
    self.treenode = model.klass("cmakelang.parse.common.TreeNode")
    self.violations = {}
    self.summaries = {}      # key -> dict(outcomes)
    self.meta = {}           # key -> context description
    self.worklist = []
    self.deps = {}
    self.current = None
    self.quiet = 0
    self.childkinds = {}     # (parent kind) -> {child kind: set(where)}
    self.stats = {"contexts": 0, "paths": 0, "takes": set(), "peeks": set(),
                  "loops": set(), "stores": set(), "returns": set(), "raises": {}}
    self.guard_unsupported = []
    self.consuming = self._consuming()
    self.candidates = self._candidates()
    self._small = {}
    self.mutating = self._mutating()
    self.inline_always = set()
    self.alias = alias.Alias(model)
    self._singles = {}

  # ------------------------------------------------------ program facts

  def _consuming(self):
    """Functions that may take tokens from a list parameter (by name)."""
    fns = {}
    for q, info in self.model.functions.items():
      if not q.startswith("cmakelang.parse"):
        continue
      fns[q] = info
    cons = set()
    names = {}
    for q, info in fns.items():
      names.setdefault(info.node.name, set()).add(q)
      params = set(info.params)
      for n in walk_own(info.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
            and n.func.attr in ("pop", "popleft", "remove", "clear") \
            and isinstance(n.func.value, ast.Name) and n.func.value.id in params:
          cons.add(q)
        if isinstance(n, ast.Delete):
          for t in n.targets:
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in params:
              cons.add(q)
        # hands a list parameter on to a value called with (ctx, tokens, ...)
        if isinstance(n, ast.Call) and len(n.args) == 3 and isinstance(n.func, (ast.Name, ast.Subscript, ast.Call)) \
            and all(isinstance(a, ast.Name) for a in n.args[:2]) and {a.id for a in n.args[:2]} <= params:
          f = n.func
          if not (isinstance(f, ast.Name) and self.model.resolve_name(info.mod, f.id) is not None):
            cons.add(q)
    changed = True
    while changed:
      changed = False
      for q, info in fns.items():
        if q in cons:
          continue
        params = set(info.params)
        for n in walk_own(info.node):
          if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id in params for a in n.args):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
            if nm and names.get(nm, set()) & cons:
              cons.add(q)
              changed = True
              break
    return cons

  def _candidates(self):
    """Callables that can be stored in a parser table: functions and methods
    referenced as values that accept (ctx, tokens, breakstack), and classes
    whose instances are called that way."""
    out = []
    seen = set()

    def add(fn, selfv, why):
      k = (fn.qual, repr(selfv))
      if k in seen:
        return
      seen.add(k)
      out.append((fn, selfv, why))

    def accepts3(info, skip):
      a = info.node.args
      pos = [x.arg for x in a.posonlyargs + a.args][skip:]
      req = len(pos) - len(a.defaults)
      return req <= 3 <= len(pos) and not (a.kwonlyargs and any(d is None for d in a.kw_defaults))
    for m in self.model.modules.values():
      if not m.name.startswith("cmakelang.parse"):
        continue
      for n in ast.walk(m.tree):
        par = getattr(n, "_parent", None)
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
          if isinstance(par, ast.Call) and par.func is n:
            continue
          if isinstance(par, ast.Attribute):
            continue
          ent = self.model.resolve_expr(m, n)
          if isinstance(ent, FunctionInfo):
            if ent.klass is not None and ent.is_classmethod:
              kl = self.model.resolve_expr(m, n.value) if isinstance(n, ast.Attribute) else ent.klass
              if accepts3(ent, 1):
                add(ent, ClsV(kl if isinstance(kl, Klass) else ent.klass), m.name)
            elif ent.klass is None and accepts3(ent, 0) and ent.qual in self.consuming | self._leafnames(ent):
              add(ent, None, m.name)
          elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "cls":
            f = enclosing(n, ast.ClassDef)
            if f is not None:
              k = self.model.classes.get(m.name + "." + f.name)
              if k:
                _, mem = k.lookup(n.attr)
                if isinstance(mem, FunctionInfo) and mem.is_classmethod and accepts3(mem, 1):
                  add(mem, ClsV(k), m.name)
      for k in self.model.classes.values():
        if k.mod is m:
          _, mem = k.lookup("__call__")
          if isinstance(mem, FunctionInfo) and accepts3(mem, 1):
            add(mem, U(("self", k.qual)), m.name)
    if len(out) < 20:
      raise AnchorError("only %d table parsers found" % len(out))
    return out

  def _leafnames(self, ent):
    # parsers that take nothing (e.g. a null parser) still are candidates if
    # their parameters look like a parser's: three params, second a list
    return {ent.qual} if len(ent.params) == 3 else set()

  # ------------------------------------------------------ state helpers

  def initial(self):
    return TS({"log": (), "ahead": (), "end": False})

  def domain(self, st, u):
    if u.key[0] == "attr" and u.key[2] == "type" and isinstance(u.key[1], U):
      b = u.key[1]
      if is_tok(b) or (b.key[0] == "fresh" and b.key[1][0] in ("fartok", "tok")):
        return ("in", self.allE)
    return None

  def kindset(self, st, tok):
    d = st.dom.get(U(("attr", tok, "type")))
    if d is None:
      return self.kinds
    if d[0] == "in":
      return frozenset(x.name for x in d[1] if isinstance(x, E))
    return self.kinds - frozenset(x.name for x in d[1] if isinstance(x, E))

  def newtok(self, st):
    return self.interp.fresh(st, ("tok",))

  def ensure(self, st, n, node):
    """Fork on whether at least n tokens remain -> [(state, bool)]."""
    out = []
    pend = [st]
    while pend:
      s = pend.pop()
      i = next((i for i, x in enumerate(s.p.ahead[:n]) if is_run(x)), None)
      if i is not None:
        s2 = s.copy()
        s2.p.ahead = s2.p.ahead[:i] + s2.p.ahead[i + 1:]
        pend.append(s2)
        t = self.newtok(s)
        s.dom[U(("attr", t, "type"))] = ("in", frozenset(E(LEX, k) for k in run_kinds(s.p.ahead[i])))
        s.p.ahead = s.p.ahead[:i] + (t,) + s.p.ahead[i:]
        pend.append(s)
      elif len(s.p.ahead) >= n:
        out.append((s, True))
      elif s.p.end:
        out.append((s, False))
      else:
        s2 = s.copy()
        s2.p.end = True
        s2.note(self.interp.where(s2, node), "no token left after %d" % len(s2.p.ahead))
        out.append((s2, False))
        s.p.ahead = s.p.ahead + (self.newtok(s),)
        pend.append(s)
    return out

  def need(self, st, n, node, what):
    """The code indexes token n-1.  Returns surviving states."""
    self.stats["peeks"].add(self.interp.where(st, node))
    out = []
    for s, ok in self.ensure(st, n, node):
      if ok:
        out.append(s)
      else:
        self.report(s, "C03", "past-end", node,
                    "%s may go past the end of the input" % what)
    return out

  def report(self, st, prop, rule, node, msg, construct=None, where=None):
    info = None
    for q in reversed(st.stack):
      info = q
      break
    fn = info or (self.current and self.current[0]) or "?"
    key = (prop, rule, fn, construct or src(node))
    if key not in self.violations:
      self.violations[key] = {
          "property": prop, "rule": rule, "function": fn,
          "where": where or (self.interp.where(st, node) if st.cur is not None else "?"),
          "construct": construct or src(node), "message": msg,
          "context": self.meta.get(self.current, ""), "path": st.path(), "contexts": set(), "callees": set()}
    for w in st.path():
      w = str(w)
      if " call " in w and " (take" in w:
        self.violations[key]["callees"].add("cmakelang." + w.split(" call ")[1].split(" (")[0])
    self.violations[key]["contexts"].add(self.current)

  # ------------------------------------------------------ stream operations

  def take(self, st, node):
    out = []
    if self.probing:
      return []
    self.stats["takes"].add(self.interp.where(st, node))
    for s in self.need(st, 1, node, "taking a token"):
      t = s.p.ahead[0]
      s.p.ahead = s.p.ahead[1:]
      s.p.log = s.p.log + (t,)
      out.append((s, t))
    return out

  def on_method(self, st, base, name, args, kwargs, node):
    base = self.interp.resolve(st, base)
    if base == STREAM:
      i = self.interp.resolve(st, args[0]) if args else None
      if name == "pop":
        if isinstance(i, C) and i.v == 0:
          return self.take(st, node)
        self.report(st, "C01", "take-not-first", node, "takes a token that is not the first one")
        return []
      if name == "popleft":
        return self.take(st, node)
      if name in ("index", "count", "copy", "__len__"):
        return [(st, self.interp.fresh(st, self.interp.site(st, node)))]
      self.report(st, "C01", "stream-mutation", node, "unmodelled mutation of the token stream: %s" % name)
      return []
    if name == "pop" and not is_tok(base):
      st.p.d["popped"] = st.p.d.get("popped", frozenset()) | {base}
    return None

  def on_attr(self, st, b, name, node):
    if b == STREAM:
      return [(st, BM(STREAM, name))]
    return None

  def on_subscript(self, st, b, i, node):
    if b != STREAM:
      return None
    if isinstance(i, C) and isinstance(i.v, int) and i.v >= 0:
      return [(s, s.p.ahead[i.v]) for s in self.need(st, i.v + 1, node, "looking at token %d" % i.v)]
    if isinstance(i, C):
      return [(s, self.interp.fresh(s, ("fartok",))) for s in self.need(st, 1, node, "looking at the last token")]
    return [(st, self.interp.fresh(st, self.interp.site(st, node, "slice")))]

  def on_del_subscript(self, st, b, i, node):
    if b != STREAM:
      return None
    if isinstance(i, C) and i.v == 0:
      return [(s, None) for s, t in self.take(st, node)]
    if isinstance(i, U) and i.key[0] == "slice" and i.key[1] in (NONE, C(0)) and isinstance(i.key[2], C) and isinstance(i.key[2].v, int):
      pend = [st]
      for _ in range(i.key[2].v):
        nxt = []
        for s in pend:
          nxt.extend(x for x, t in self.take(s, node))
        pend = nxt
      return [(s, None) for s in pend]
    self.report(st, "C01", "stream-mutation", node, "unmodelled deletion from the token stream")
    return []

  def on_set_subscript(self, st, b, i, v, node):
    if b == STREAM:
      self.report(st, "C01", "stream-mutation", node, "assignment into the token stream")
      return []
    return None

  def on_truth(self, st, v, node):
    if v == STREAM:
      return self.ensure(st, 1, node)
    if isinstance(v, U) and v.key[0] == "slen":
      return [(s, t != 0) for s, t in self.cmp_len(st, ast.Gt(), v, C(0), node)]
    return None

  def mark(self, st):
    """Position mark at the current end of the log."""
    log = st.p.log
    if log and is_mark(log[-1]):
      return log[-1]
    m = self.interp.fresh(st, ("mark",))
    st.p.log = log + (m,)
    return m

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, Ext) and f.name == "len" and len(args) == 1 and \
        self.interp.resolve(st, args[0]) == STREAM:
      return [(st, U(("slen", self.mark(st))))]
    if self.probing and isinstance(f, ClsV) and self.tuple_fields(f.klass):
      _, m = f.klass.lookup("__new__")
      if isinstance(m, FunctionInfo):
        return self.interp.call_fn(st, FnV(m, None), [f] + list(args), kwargs, node)
    if self.probing and isinstance(f, Ext) and f.name == "tuple.__new__" and len(args) == 2 and isinstance(args[0], ClsV):
      v = self.interp.resolve(st, args[1])
      fields = self.tuple_fields(args[0].klass)
      if isinstance(v, Tup) and fields and not any(isinstance(x, Many) for x in v.items) and \
          max(fields.values()) < len(v.items):
        names = list(fields)
        return [(st, NTup(tuple(v.items[fields[n]] for n in names), tuple(names)))]
    if isinstance(f, Ext) and f.name == "bool" and args and self.interp.resolve(st, args[0]) == STREAM:
      return [(s, C(t)) for s, t in self.ensure(st, 1, node)]
    if isinstance(f, Ext) and f.name in ("iter", "enumerate", "list", "tuple", "reversed") and args and self.interp.resolve(st, args[0]) == STREAM:
      return [(st, self.interp.fresh(st, self.interp.site(st, node)))]
    return None

  def tuple_fields(self, klass):
    """name -> index, for a class derived from tuple whose attributes are
    properties made by itemgetter."""
    memo = self.__dict__.setdefault("_tfields", {})
    if klass.qual not in memo:
      out = {}
      if "tuple" in [k for k in klass.mro() if not isinstance(k, Klass)]:
        for s in klass.node.body:
          if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and dotted(s.value.func) == "property" and \
              len(s.value.args) == 1 and isinstance(s.value.args[0], ast.Call) and \
              "itemgetter" in (dotted(s.value.args[0].func) or "") and \
              isinstance(s.value.args[0].args[0], ast.Constant):
            for t in s.targets:
              if isinstance(t, ast.Name):
                out[t.id] = s.value.args[0].args[0].value
      memo[klass.qual] = out
    return memo[klass.qual]

  def on_binop(self, st, op, a, b, node):
    if any(isinstance(x, U) and x.key[0] == "slen" for x in (a, b)):
      if isinstance(op, ast.Sub) and isinstance(a, U) and a.key[0] == "slen" and isinstance(b, U) and b.key[0] == "slen":
        return [(st, U(("sdiff", a, b)))]
    return None

  def on_compare(self, st, op, a, b, node):
    r = lambda v: self.interp.resolve(st, v)
    a, b = r(a), r(b)
    sl = lambda v: isinstance(v, U) and v.key[0] == "slen"
    if isinstance(a, U) and a.key[0] == "sdiff" and isinstance(b, C):
      return self.cmp_diff(st, op, a.key[1], a.key[2], b.v, node)
    if sl(a) or sl(b):
      if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
        if sl(a) and sl(b):
          return self.cmp_pos(st, op, a, b, node)
        if sl(a) and isinstance(b, C) and isinstance(b.v, int):
          return self.cmp_len(st, op, a, b, node)
        if sl(b) and isinstance(a, C) and isinstance(a.v, int):
          flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE,
                  ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}[type(op)]
          return self.cmp_len(st, flip(), b, a, node)
    if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and NONE in (a, b) and any(
        is_tok(x) or is_kind(x, "fartok") for x in (a, b)):
      return [(st, isinstance(op, (ast.IsNot, ast.NotEq)))]
    if (a == STREAM or b == STREAM) and isinstance(op, (ast.Is, ast.IsNot)):
      return [(st, isinstance(op, ast.IsNot))]
    if (a == STREAM or b == STREAM) and isinstance(op, (ast.Eq, ast.NotEq)):
      o = b if a == STREAM else a
      ob = st.heap.get(o) if isinstance(o, Ref) else None
      if isinstance(ob, Lst) and not ob.items:
        return [(s, (not t) == isinstance(op, ast.Eq)) for s, t in self.ensure(st, 1, node)]
    return None

  def spelled(self, st, v):
    """The token whose spelling (possibly in another case) a value is."""
    n = 0
    while isinstance(v, U) and n < 6:
      n += 1
      k = v.key
      if k[0] == "attr" and k[2] == "spelling" and is_tok(k[1]):
        return k[1]
      if k[0] == "call" and isinstance(k[1], U) and k[1].key[0] == "attr":
        v = k[1].key[1]
        continue
      if k[0] == "method" and isinstance(k[1], U):
        v = k[1]
        continue
      return None
    return None

  def restrict_spelled(self, st, tok, words):
    """A token which is spelled like one of the words cannot be a comment or
    white space.  Unknown tables are tables of keywords."""
    no = set()
    ws = [w.v for w in words if isinstance(w, C)]
    for kinds, test in (
        (WS, lambda w: not w.strip()),
        (COMMENTISH | ONOFF, lambda w: w.startswith("#")),
        (frozenset(["LEFT_PAREN"]), lambda w: w == "("),
        (frozenset(["RIGHT_PAREN"]), lambda w: w == ")")):
      if not any(isinstance(w, str) and test(w) for w in ws):
        no |= kinds
    sp = U(("attr", tok, "spelling"))
    if ws and len(ws) == len(words):
      for k, t in st.truth.items():
        if t and k.key[0] == "call" and k.key[1] == U(("attr", sp, "startswith")) and len(k.key) == 3 and \
            isinstance(k.key[2], C) and isinstance(k.key[2].v, str):
          if not any(isinstance(w, str) and w.lower().startswith(k.key[2].v.lower()) for w in ws):
            return False
    ks = self.kindset(st, tok)
    if not (ks - no):
      return False
    if ks & no:
      return self.interp.restrict(st, U(("attr", tok, "type")), frozenset(E(LEX, k) for k in ks - no), True)
    return True

  def cmp_len(self, st, op, a, b, node):
    n = b.v
    m = a.key[1]
    if not (st.p.log and st.p.log[-1] == m):
      return None
    t = type(op)
    if t is ast.Gt:
      return self.ensure(st, n + 1, node)
    if t is ast.GtE:
      return self.ensure(st, n, node)
    if t is ast.Lt:
      return [(s, not x) for s, x in self.ensure(st, n, node)]
    if t is ast.LtE:
      return [(s, not x) for s, x in self.ensure(st, n + 1, node)]
    out = []
    for s, x in self.ensure(st, n, node):
      if not x:
        out.append((s, t is ast.NotEq))
        continue
      for s2, y in self.ensure(s, n + 1, node):
        out.append((s2, (not y) == (t is ast.Eq)))
    return out

  def between(self, st, m1, m2):
    log = st.p.log
    if m1 not in log or m2 not in log:
      return None
    i, j = log.index(m1), log.index(m2)
    sign = 1
    if i > j:
      i, j = j, i
      sign = -1
    return sign, [x for x in log[i + 1:j] if not is_mark(x)]

  def cmp_pos(self, st, op, a, b, node):
    """Compare len-at-mark a with len-at-mark b.  a earlier => len(a) >= len(b)."""
    r = self.between(st, a.key[1], b.key[1])
    if r is None:
      return None
    sign, items = r
    out = []
    for s, empty in self.fork_empty(st, items, node):
      d = 0 if empty else sign   # len(a) - len(b) has sign `sign` if nonempty
      t = {ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0,
           ast.Eq: d == 0, ast.NotEq: d != 0}[type(op)]
      out.append((s, t))
    return out

  def cmp_diff(self, st, op, a, b, n, node):
    if n != 0:
      return None
    return self.cmp_pos(st, op, a, b, node)

  def fork_empty(self, st, items, node):
    if any(nonempty(x) for x in items):
      return [(st, False)]
    me = [x for x in items if is_span(x) or is_lost(x)]
    if not me:
      return [(st, True)]
    out = []
    for i in range(len(me)):
      s = st.copy()
      # me[:i] empty, me[i] non-empty
      for x in me[:i]:
        self.erase(s, x)
      ne = self.interp.fresh(s, (me[i].key[1][0], "ne") + tuple(me[i].key[1][2:]))
      self.interp.rename(s, {me[i]: ne})
      s.note(self.interp.where(s, node), "something was consumed")
      out.append((s, False))
    for x in me:
      self.erase(st, x)
    st.note(self.interp.where(st, node), "nothing was consumed")
    out.append((st, True))
    return out

  def erase(self, st, span):
    st.p.log = tuple(x for x in st.p.log if x != span)
    for r, o in list(st.heap.items()):
      if isinstance(o, Lst) and span in o.items:
        st.heap[r] = Lst([x for x in o.items if x != span], o.meta)

  # ------------------------------------------------------ ownership

  def children_ref(self, st, v):
    if isinstance(v, Ref):
      o = st.heap.get(v)
      if isinstance(o, Inst) and isinstance(o.klass, Klass) and o.klass.issub(self.treenode):
        return o.attrs.get("children")
    return None

  def flatten(self, st, v, seen=()):
    if is_tok(v) or is_span(v):
      return [v]
    if isinstance(v, Ref):
      if v in seen:
        return [U(("cycle",))]
      o = st.heap.get(v)
      if isinstance(o, Lst):
        out = []
        for x in o.items:
          out.extend(self.flatten(st, x, seen + (v,)))
        return out
      ch = self.children_ref(st, v)
      if ch is not None:
        return self.flatten(st, ch, seen + (v,))
      return []
    if isinstance(v, Many):
      if is_tok(v.v):
        return [U(("dup", v.v))]
      if isinstance(v.v, Ref) and self.children_ref(st, v.v) is not None:
        return [U(("dup", v.v))]
      return []
    return []

  def owners(self, st):
    """children-list ref -> node inst ref"""
    out = {}
    for r, o in st.heap.items():
      if isinstance(o, Inst):
        c = o.attrs.get("children")
        if isinstance(c, Ref):
          out[c] = r
    return out

  def live_marks(self, st):
    live = set()
    for env in st.frames.values():
      for v in env.values():
        for x in iter_vals(v):
          if is_mark(x):
            live.add(x)
    for k, v in st.p.d.items():
      if k.startswith("lm:"):
        live.add(v)
    for o in st.heap.values():
      for v in o.values():
        for x in iter_vals(v):
          if is_mark(x):
            live.add(x)
    return live

  def compress(self, st):
    """Fold contiguous owned pieces into spans; forget far look-ahead."""
    p = st.p
    live = self.live_marks(st)
    p.log = tuple(x for x in p.log if not is_mark(x) or x in live)
    owners = self.owners(st)
    # lists that hold neither tokens nor nodes nor constants: only "some elements"
    for r, o in list(st.heap.items()):
      if isinstance(o, Lst) and r not in owners and o.items:
        vs = [x.v if isinstance(x, Many) else x for x in o.items]
        if all(isinstance(x, U) and not is_tok(x) and not is_span(x) for x in vs) and any(not isinstance(x, Many) for x in o.items):
          st.heap[r] = Lst([Many(U(("elem", r)))], o.meta)
    envrefs = set()
    for env in st.frames.values():
      for v in env.values():
        if isinstance(v, Ref):
          envrefs.add(v)
    if not p.d.get("giveup"):
      at = {x: i for i, x in enumerate(p.log)}
      for r in owners:
        pos = [at[x] for it in st.heap[r].items for x in self.flatten(st, it) if x in at]
        if any(a >= b for a, b in zip(pos, pos[1:])):
          fn = self.model.functions[self.current[0]]
          rule = "duplicated" if len(set(pos)) < len(pos) else "order"
          self.report(st, "C01", rule, fn.node, "a token is stored %s" % (
              "more than once" if rule == "duplicated" else "out of order"),
                      construct="%s in %s" % (rule, fn.node.name), where=fn.where)
          p.d["giveup"] = True
          break
    # roots of ownership: nodes not contained in another node's list
    folded_away = set()
    order = [r for r in st.heap if r in owners] + [
        r for r, o in st.heap.items() if isinstance(o, Lst) and r not in owners]
    for r in order:
      o = st.heap.get(r)
      if not isinstance(o, Lst) or not o.items:
        continue
      items = list(o.items)
      res = []
      run = []      # (item, flat)

      def flush():
        if not run:
          return
        flat = [x for _, f in run for x in f]
        if len(run) == 1 and (is_span(run[0][0])):
          res.append(run[0][0])
        elif not flat:
          for it, _ in run:
            if isinstance(it, Ref):
              pass            # empty node: no tokens; drop from the abstraction
            else:
              res.append(it)
        elif self.contig(p.log, flat):
          kind = "ne" if any(is_tok(x) or x.key[1][1] == "ne" for x in flat) else "me"
          sp = self.interp.fresh(st, ("span", kind))
          i = p.log.index(flat[0])
          j = p.log.index(flat[-1])
          p.log = p.log[:i] + (sp,) + p.log[j + 1:]
          gone = set(flat)
          folded_away.update(gone)
          for it, _ in run:
            if isinstance(it, Ref):
              self.freeze(st, it)
          res.append(sp)
        else:
          res.extend(it for it, _ in run)
        run.clear()
      for idx, it in enumerate(items):
        last = idx == len(items) - 1
        fl = self.flatten(st, it)
        isnode = self.children_ref(st, it) is not None
        keep_open = last and isnode and it in envrefs
        if not (is_tok(it) or is_span(it) or isnode) or keep_open or any(
            not (is_tok(x) or is_span(x)) for x in fl):
          flush()
          res.append(it)
          continue
        if any(x in folded_away for x in fl) and not is_span(it):
          flush()
          res.append(Many(U(("elem", r))) if r not in owners else it)
          continue
        # contiguity with the current run?
        if run:
          flat = [x for _, f in run for x in f]
          if not self.contig(p.log, flat + fl):
            flush()
        run.append((it, fl))
      flush()
      if r not in owners:
        res = [Many(U(("elem", r))) if (is_tok(x) and x in folded_away) else x for x in res]
        out = []
        for x in res:
          if isinstance(x, Many) and x in out:
            continue
          out.append(x)
        res = out
      st.heap[r] = Lst(res, o.meta)
    self.collapse_lost(st)
    keep = 1
    if p.ahead and is_run(p.ahead[0]):
      keep = 2
    elif len(p.ahead) > 1 and is_run(p.ahead[1]):
      keep = 3
    if len(p.ahead) > keep:
      p.ahead = p.ahead[:keep]
      p.end = False

  def collapse_lost(self, st):
    p = st.p
    if not p.log:
      return
    seen = set()
    for env in st.frames.values():
      for v in env.values():
        seen.update(iter_vals(v))
    for o in st.heap.values():
      for v in o.values():
        seen.update(iter_vals(v))
    for v in st.uattr.values():
      seen.update(iter_vals(v))
    out = []
    for x in p.log:
      if is_mark(x) or x in seen or is_span(x) and x.key[1][1] == "me":
        out.append(x)
        continue
      if is_lost(x):
        y = x
      else:
        cls = "bom" if is_tok(x) and self.kindset(st, x) <= {"BYTEORDER_MARK"} else "real"
        y = self.interp.fresh(st, ("lost", "ne" if nonempty(x) else "me", cls))
      if out and is_lost(out[-1]) and out[-1].key[1][2] == y.key[1][2]:
        if nonempty(y) and not nonempty(out[-1]):
          out[-1] = y
        continue
      out.append(y)
    if p.d.get("giveup") or len(out) > 6 or len(out) > 2 and any(is_lost(x) and x.key[1][2] == "real" for x in out):
      # a token is lost for good on this path, or pieces pile up that never
      # become contiguous: widen.  Shorter paths already carry the verdict.
      if not p.d.get("giveup"):
        fn = self.model.functions[self.current[0]]
        if any(is_lost(x) and x.key[1][2] == "real" for x in out):
          self.report(st, "C01", "dropped", fn.node, "a token is taken from the input and nothing refers to it any more",
                      construct="dropped in %s" % fn.node.name, where=fn.where)
        else:
          self.stats.setdefault("undecided", set()).add("%s: the order of what is stored cannot be followed" % fn.qual)
      spans = set(x for x in out if is_span(x))
      for r, o in list(st.heap.items()):
        if isinstance(o, Lst) and (r in self.owners(st) or any(x in spans for x in o.items)):
          st.heap[r] = Lst([Many(U(("frozen",)))], o.meta)
      p.d["giveup"] = True
      out = [self.interp.fresh(st, ("lost", "ne", "real"))] + [x for x in out if is_mark(x)]
    p.log = tuple(out)

  def contig(self, log, seq):
    if not seq:
      return True
    try:
      i = log.index(seq[0])
      j = log.index(seq[-1])
    except ValueError:
      return False
    return tuple(x for x in log[i:j + 1] if not (is_lost(x) and x.key[1][2] == "bom")) == tuple(seq)

  def freeze(self, st, ref):
    ch = self.children_ref(st, ref)
    if isinstance(ch, Ref) and isinstance(st.heap.get(ch), Lst):
      for x in st.heap[ch].items:
        if isinstance(x, Ref):
          self.freeze(st, x)
      st.heap[ch] = Lst([Many(U(("frozen",)))])
      # groups recorded in side lists no longer matter for ownership

  # ------------------------------------------------------ loops

  def lkey(self, st, node):
    return "lm:%s:%d:%d" % (st.stack[-1] if st.stack else "?", node.lineno, node.col_offset)

  def on_loop_head(self, st, node):
    st.p.d.pop(self.lkey(st, node), None)
    st.p.d.pop("popped", None)
    self.compress(st)
    if self.probing:
      return
    self.forget_attrs(st)
    # across rounds keep only facts about variables and about token kinds
    keepv = set()
    for env in st.frames.values():
      keepv.update(v for v in env.values() if isinstance(v, U))
    for t in list(st.p.log) + list(st.p.ahead):
      keepv.add(U(("attr", t, "type")))
    for tab in ("truth", "dom"):
      d = getattr(st, tab)
      keep = {k: v for k, v in d.items() if k in keepv or
              (isinstance(k, U) and k.key[0] == "attr" and k.key[2] == "type")}
      if len(keep) != len(d):
        setattr(st, tab, keep)

  def forget_attrs(self, st):
    """Descriptive attributes of nodes (everything but children and kind) are
    forgotten, unless they are the only owner of tokens."""
    held = set()
    for o in st.heap.values():
      if isinstance(o, Lst):
        held.update(x for x in o.items if isinstance(x, Ref))
    for env in st.frames.values():
      held.update(v for v in env.values() if isinstance(v, Ref))

    def spare(v):
      if isinstance(v, (C, E, U, ExcV, ClsV)):
        return True
      if isinstance(v, Tup):
        return all(spare(x) for x in v.items)
      if isinstance(v, Many):
        return spare(v.v)
      if isinstance(v, Ref):
        if self.children_ref(st, v) is not None:
          return v in held or not self.flatten(st, v)
        o = st.heap.get(v)
        if isinstance(o, Lst):
          return v not in held and all(spare(x) for x in o.items)
        return not isinstance(o, Dct) and v not in held
      return False
    for r, o in list(st.heap.items()):
      if isinstance(o, Inst) and isinstance(o.klass, Klass) and o.klass.issub(self.treenode):
        a = {k: v for k, v in o.attrs.items() if k in ("children", "node_type", "parent") or not spare(v)}
        if len(a) != len(o.attrs):
          st.heap[r] = Inst(o.klass, a)

  def loop_mark(self, st, node):
    if isinstance(node, ast.While):
      m = self.mark(st)
      st.p.d[self.lkey(st, node)] = m
      self.stats["loops"].add(self.interp.where(st, node))

  def on_back_edge(self, st, node, mark):
    if not isinstance(node, ast.While):
      return
    m = st.p.d.pop(self.lkey(st, node), None)
    if m is None:
      return
    log = st.p.log
    items = [x for x in log[log.index(m) + 1:]] if m in log else []
    if any(nonempty(x) for x in items):
      return
    # other progress: a local work list in the condition was popped
    names = {n.id for n in ast.walk(node.test) if isinstance(n, ast.Name)}
    popped = st.p.d.get("popped", frozenset())
    for n in names:
      if n in st.env and st.env[n] in popped and st.env[n] != STREAM:
        return
    if self.bounded_counter(st, node):
      return
    return True

  def on_stuck(self, st, node):
    """A cycle of rounds, none of which uses up a token or changes anything
    else the analysis can see."""
    self.report(st, "C02", "no-progress", node.test,
                "rounds of this loop may repeat without using up a token",
                construct="while " + src(node.test), where=self.interp.where(st, node))

  def bounded_counter(self, st, node):
    """while i < bound: ... i += c   (no reassignment of bound)"""
    t = node.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.LtE)):
      for n in ast.walk(node):
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and n.target.id == t.left.id and isinstance(getattr(n, "_parent", None), ast.While):
          return True
    return False

  def on_loop_exit(self, st, node):
    st.p.d.pop(self.lkey(st, node), None)
    st.p.d.pop("popped", None)

  def on_return(self, st, info, sig):
    pre = "lm:%s:" % info.qual
    for k in [k for k in st.p.d if k.startswith(pre)]:
      del st.p.d[k]

  # ------------------------------------------------------ stores

  def on_list_add(self, st, ref, vals, node):
    owner = None
    for r, o in st.heap.items():
      if isinstance(o, Inst) and o.attrs.get("children") == ref:
        owner = o
        break
    if owner is None:
      return
    lo = st.heap.get(ref)
    self.check_store(st, owner, vals, node, has=isinstance(lo, Lst) and len(lo.items) > 0)

  def on_setattr(self, st, b, name, v, node):
    if name == "children" and isinstance(b, Ref) and isinstance(st.heap.get(b), Inst) and isinstance(v, Ref):
      lo = st.heap.get(v)
      if isinstance(lo, Lst):
        self.check_store(st, st.heap[b], lo.items, node, has=False)
    return None

  ALLOWED = {
      "COMMENT": COMMENTISH | WS,
      "ONOFFSWITCH": ONOFF,
      "LPAREN": frozenset(["LEFT_PAREN"]),
      "RPAREN": frozenset(["RIGHT_PAREN"]),
  }

  def check_store(self, st, owner, vals, node, has=True):
    nt = owner.attrs.get("node_type")
    ntn = nt.name if isinstance(nt, E) else None
    for v in vals:
      v = v.v if isinstance(v, Many) else v
      if is_tok(v):
        ks = self.kindset(st, v)
        self.stats["stores"].add(self.interp.where(st, node))
        if ntn is None:
          continue
        if ntn in ("ARGUMENT", "FLAG", "KEYWORD", "FUNNAME", "ATWORD"):
          bad = ks & (COMMENTISH | ONOFF)
          if not has:      # blanks may follow the argument, not stand for it
            bad |= ks & WS
          what = "an %s" % ntn.lower()
        elif ntn in self.ALLOWED:
          bad = ks - self.ALLOWED[ntn]
          what = "a %s" % ntn.lower()
        else:
          bad = ks - WS
          what = "bare content of a %s" % ntn.lower()
        if bad:
          self.report(st, "C04", "kind", node,
                      "a token of kind %s can be stored as %s" % (
                          "/".join(sorted(bad)[:4]) + ("/…" if len(bad) > 4 else ""), what),
                      construct="%s <- %s" % (ntn, "|".join(sorted(bad)[:3])))
      elif isinstance(v, Ref):
        o = st.heap.get(v)
        if isinstance(o, Inst) and isinstance(o.attrs.get("node_type"), E) and ntn:
          self.childkinds.setdefault(ntn, {}).setdefault(
              o.attrs["node_type"].name, set()).add(self.interp.where(st, node))

  # ------------------------------------------------------ calls

  def has_stream(self, args, kwargs):
    return any(a == STREAM for a in args) or any(v == STREAM for v in kwargs.values())

  def on_inline(self, st, info, args, kwargs, node):
    args = [self.interp.resolve(st, a) for a in args]
    if not self.has_stream(args, kwargs):
      return None
    if info.qual not in self.consuming:
      return None
    if self.probing and info.qual not in st.stack and isinstance(node._parent, ast.Return):
      return None
    allv = list(args) + list(kwargs.values())
    nodes = [a for a in allv if isinstance(a, Ref) and self.children_ref(st, a) is not None]
    if nodes and (len(nodes) > 1 or info.qual in self.inline_always or not self.plain_node(st, nodes[0])):
      return None     # writes into the caller's node: analyse in place
    for a in allv:
      if isinstance(a, Ref) and isinstance(st.heap.get(a), Lst) and any(
          is_tok(x) or is_span(x) or self.children_ref(st, x) is not None for x in st.heap[a].items):
        return None
    if any(isinstance(st.heap.get(a), Lst) and any(st.heap[r].attrs.get("children") == a
           for r in st.heap if isinstance(st.heap[r], Inst)) for a in allv if isinstance(a, Ref)):
      return None
    env = self.interp.bind_args(st, info, args, kwargs, node)
    if env is None:
      return None
    return self.apply(st, info, env, node)

  def plain_node(self, st, ref):
    o = st.heap[ref]
    ch = st.heap.get(o.attrs.get("children"))
    if not isinstance(ch, Lst):
      return False
    # no other name for its children list
    n = 0
    cref = o.attrs["children"]
    for env in st.frames.values():
      n += sum(1 for v in env.values() if v == cref)
    return n == 0 or True

  def abstract_arg(self, st, v, name, depth=0):
    v = self.interp.resolve(st, v)
    if isinstance(v, Ref) and self.children_ref(st, v) is not None:
      o = st.heap[v]
      nt = o.attrs.get("node_type")
      return U(("nodeparam", C(o.klass.qual), nt if isinstance(nt, E) else NONE))
    if isinstance(v, (E, ClsV, FnV, Ext, ModV)) or v == STREAM or isinstance(v, C) and (
        v.v is None or isinstance(v.v, bool)):
      if isinstance(v, FnV) and v.clo is not None:
        return U(("arg", name))
      return v
    if isinstance(v, Bound) and isinstance(v.selfv, ClsV):
      return v
    if isinstance(v, Tup) and all(isinstance(x, (C, E)) for x in v.items):
      return v
    if isinstance(v, U) and v.key[0] in ("self", "arg") :
      return U(("arg", name))
    return U(("arg", name))

  def pre(self, st):
    p = st.p
    if p.ahead and not is_run(p.ahead[0]):
      return ("tok", self.coarse(self.kindset(st, p.ahead[0])))
    if p.ahead:
      return ("?", None)
    if p.end:
      return ("end", None)
    return ("?", None)

  def coarse(self, ks):
    """Round a kind set up to a union of classes (few calling contexts)."""
    arglike = frozenset(["UNQUOTED_LITERAL", "QUOTED_LITERAL", "NUMBER", "DEREF", "BRACKET_ARGUMENT"])
    if len(ks) == 1 and not ks & arglike:
      return ks
    out = frozenset()
    groups = [WS, COMMENTISH, ONOFF, frozenset(["RIGHT_PAREN"])]
    rest = self.kinds - frozenset().union(*groups)
    for g in groups + [rest]:
      if ks & g:
        out |= g
    return out & self.kinds

  def relevant(self, st, v, depth=0):
    v = self.interp.resolve(st, v)
    if v == STREAM or is_tok(v) or is_span(v) or is_kind(v, "fartok"):
      return True
    if isinstance(v, Ref):
      o = st.heap.get(v)
      if isinstance(o, Inst) and isinstance(o.klass, Klass) and o.klass.issub(self.treenode):
        return True
      if isinstance(o, Lst) and depth < 2:
        return any(self.relevant(st, x.v if isinstance(x, Many) else x, depth + 1) for x in o.items)
    if isinstance(v, Tup) and depth < 2:
      return any(self.relevant(st, x, depth + 1) for x in v.items if not isinstance(x, Many))
    return False

  def direct(self, st, v):
    v = self.interp.resolve(st, v)
    if v == STREAM or is_tok(v) or is_kind(v, "fartok"):
      return True
    if isinstance(v, Ref) and isinstance(st.heap.get(v), Lst):
      return any(is_tok(x.v if isinstance(x, Many) else x) for x in st.heap[v].items)
    return False

  def _mutating(self):
    """Functions that may change a list or an object (transitively, by name)."""
    muts = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "appendleft", "popleft"}
    names, out, calls = {}, set(), {}
    for q, info in self.model.functions.items():
      if not q.startswith("cmakelang.parse"):
        continue
      names.setdefault(info.node.name, set()).add(q)
      cs = calls[q] = set()
      alias = set(info.params)
      for n in walk_own(info.node):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == "children" for x in ast.walk(n.value)):
          alias.update(t.id for t in n.targets if isinstance(t, ast.Name))
      # a list parameter that defaults to None is an output accumulator
      a = info.node.args
      for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant) and d.value is None:
          alias.discard(x.arg)
      for n in walk_own(info.node):
        if isinstance(n, ast.Call):
          nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "?")
          if isinstance(n.func, ast.Attribute) and nm in muts:
            recv = n.func.value
            if isinstance(recv, ast.Attribute) or isinstance(recv, ast.Name) and recv.id in alias:
              out.add(q)
          cs.add(nm)
        elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
          out.add(q)
        elif isinstance(n, ast.Return) and n.value is not None:
          pass
    changed = True
    while changed:
      changed = False
      for q, cs in calls.items():
        if q not in out and any(names.get(c, set()) & out for c in cs):
          out.add(q)
          changed = True
    return out

  def inline_ok(self, st, info, args, kwargs):
    """Only code that is handed the stream, a token or a tree node can affect
    the token accounting; everything else (database and configuration
    construction, spec parsing, ...) is opaque."""
    if not (info.mod.name.startswith("cmakelang.parse") or info.mod.name == "cmakelang.lex"):
      return False
    rel = [a for a in list(args) + list(kwargs.values()) if not isinstance(a, Many) and self.relevant(st, a)]
    if rel:
      if info.qual not in self.mutating and not any(self.direct(st, a) for a in rel):
        return False       # only reads a tree (printing): opaque
      return True
    if not isinstance(getattr(info.node, "_parent", None), (ast.Module, ast.ClassDef)):
      return True          # a local helper may close over the stream
    small = self._small.get(info.qual)
    if small is None:
      n = [x for x in walk_own(info.node) if isinstance(x, ast.stmt)]
      loops = any(isinstance(x, (ast.For, ast.While, ast.Import, ast.ImportFrom)) for x in n)
      small = self._small[info.qual] = 99 if loops else len(n)
    return small <= (30 if self.probing else 6)

  def apply(self, st, info, env, node):
    aenv = tuple(sorted((k, self.abstract_arg(st, v, k)) for k, v in env.items()))
    pre = self.pre(st) if info.qual not in self.canddict else ("?", None)
    key = (info.qual, aenv, pre)
    if key not in self.summaries:
      self.summaries[key] = {}
      self.meta[key] = "next token %s" % (
          {"end": "missing", "?": "unknown"}.get(key[2][0]) or "in {%s}" % ",".join(sorted(key[2][1])[:6]))
      self.worklist.append(key)
      self.ctxinfo[key] = info
    if self.current is not None:
      self.deps.setdefault(key, set()).add(self.current)
    out = []
    if info.qual in self.inline_always:
      return None
    nodearg = None
    for k, a in aenv:
      if isinstance(a, U) and a.key[0] == "nodeparam":
        nodearg = self.interp.resolve(st, env[k])
    for oc in self.summaries[key].values():
      if self.probing and oc.consumed == "ne":
        continue
      if info.qual in self.refining and not self.probing and oc.consumed == "e" and \
          not self.takes_nothing(st, info, env, node):
        continue
      s = st.copy()
      s.note(self.interp.where(s, node), "call %s (%s)" % (info.qual.split("cmakelang.")[-1], {"e": "takes nothing", "me": "may take nothing", "ne": "takes tokens"}[oc.consumed]))
      val = self.apply_outcome(s, oc, info, node, nodearg)
      out.append((s, val))
    return self.interp.reduce(out)

  ctxinfo = None
  refining = ()
  probing = False
  REFINE_STEPS = 1500000

  def apply_outcome(self, s, oc, info, node, nodearg=None):
    p = s.p
    items = []
    if oc.consumed != "e":
      sp = self.interp.fresh(s, ("span", oc.consumed))
      # marks at the current end stay before the span
      p.log = p.log + (sp,)
      items = [sp]
      p.ahead = ()
      p.end = False
    if True:
      if oc.post == "end":
        p.ahead = ()
        p.end = True
      elif oc.post == "tok":
        if oc.consumed == "e" and p.ahead and not is_run(p.ahead[0]):
          t = p.ahead[0]
        else:
          t = self.newtok(s)
          p.ahead = (t,)
          p.end = False
        s.dom[U(("attr", t, "type"))] = ("in", frozenset(E(LEX, k) for k in oc.first))
    res = oc.res
    if nodearg is not None and items:
      cref = self.children_ref(s, nodearg)
      lo = s.heap[cref]
      s.heap[cref] = Lst(list(lo.items) + items, lo.meta)
    if res[0] == "none":
      return NONE
    if res[0] == "const":
      return res[1]
    if res[0] == "node":
      kl = self.model.classes[res[1]]
      site = self.interp.site(s, node, "res:" + res[1])
      lref = self.interp.alloc(s, site + ("ch",), Lst(items))
      attrs = {"children": lref}
      for k, kind in res[2]:
        if kind == "list":
          attrs[k] = self.interp.alloc(s, site + (k,), Lst([Many(U(("elem", C(k))))]))
        elif isinstance(kind, Val):
          attrs[k] = kind
      return self.interp.alloc(s, site, Inst(kl, attrs))
    return self.interp.fresh(s, self.interp.site(s, node, "resother"))

  def on_unknown_call(self, st, f, args, kwargs, node):
    if not self.has_stream(args, kwargs):
      return None
    pos = [a for a in args]
    if isinstance(f, (U, Ref)) and len(pos) == 3 and pos[1] == STREAM:
      # the contract every table parser is held to (each is analysed on its
      # own): some tokens are taken, the result owns exactly those
      out = []
      for oc in (Outcome(("node", self.treenode.qual, ()), "ne", "?", None),
                 Outcome(("node", self.treenode.qual, ()), "e", "?", None)):
        s = st.copy()
        s.note(self.interp.where(s, node), "call a table parser (%s)" % {"e": "takes nothing", "ne": "takes tokens"}[oc.consumed])
        out.append((s, self.apply_outcome(s, oc, None, node)))
      return out
    self.report(st, "C01", "unmodelled-call", node,
                "the token stream is handed to code the analysis cannot see")
    return []

  # ------------------------------------------------------ driver

  def analyse(self):
    self.ctxinfo = {}
    interp = self.interp
    self.canddict = {info.qual for info, _, _ in self.candidates}
    entry = self.model.function("cmakelang.parse.parse")
    names = entry.params
    # entry: parse(tokens, ctx)
    st = State()
    st.p = self.initial()
    st.frames[0] = {"$mod": ModV(entry.mod)}
    st.cur = 0
    env = {n: U(("arg", n)) for n in names}
    env[names[0]] = STREAM
    if entry.qual not in self.consuming:
      self.consuming.add(entry.qual)
    self.apply(st, entry, env, entry.node)
    # every table parser as its own entry as well
    for info, selfv, why in self.candidates:
      st = State()
      st.p = self.initial()
      st.frames[0] = {"$mod": ModV(info.mod)}
      st.cur = 0
      a = ([selfv] if selfv is not None else []) + [U(("arg", "ctx")), STREAM, U(("arg", "breakstack"))]
      env = interp.bind_args(st, info, a, {}, info.node)
      if env is not None:
        self.apply(st, info, env, info.node)
    rounds = 0
    started = time.time()
    cost = {}
    reports = {}
    work = set(self.worklist)
    while work:
      # cheap contexts first: by the time an expensive one is analysed, what it
      # calls has usually been settled
      rank = lambda k: (cost.get(k, 0), cost.get(k[0], 0), str(k))
      key = min(work, key=rank)
      batch = [key]
      if max(cost.get(key, 0), cost.get(key[0], 0)) > self.EXPENSIVE and len(work) > 1:
        batch = sorted(work, key=rank)[:12]
      work.difference_update(batch)
      rounds += len(batch)
      if rounds > 6000 or time.time() - started > self.DEADLINE:
        # out of time: what was found stands, what is left is not decided
        for k in set(self.summaries) & (work | set(batch)) | set(self.worklist):
          self.stats.setdefault("undecided", set()).add("%s: no fixed point in time" % k[0])
        break
      for key, changed, steps, reps in self.run_batch(batch):
        reports[key] = reps
        cost[key] = steps
        cost[key[0]] = max(cost.get(key[0], 0), steps)
        work.update(k for k in self.worklist if k not in reports)
        if changed:
          work.update(self.deps.get(key, ()))
    # the reports of the last run of every context, with stable summaries
    self.violations = {}
    for key in self.summaries:
      for k, v in reports.get(key, {}).items():
        if k in self.violations:
          self.violations[k]["contexts"] |= v["contexts"]
          self.violations[k]["callees"] |= v["callees"]
        else:
          self.violations[k] = v
    self.stats["contexts"] = len(self.summaries)
    self.rounds = rounds
    self.refine()

  def takes_nothing(self, st, info, env, node):
    """Can the callee really return without taking a token, in this state?"""
    s = st.copy()
    self.probing = True
    self.quiet += 1
    saved = self.violations
    self.violations = {}
    try:
      a = [env[p] for p in info.params]
      kw = {x.arg: env[x.arg] for x in info.node.args.kwonlyargs if x.arg in env}
      return any(not isinstance(v, Sig) for _, v in self.interp.inline(s, FnV(info, None), a, kw, node))
    finally:
      self.probing = False
      self.quiet -= 1
      self.violations = saved

  EXPENSIVE = 20000
  CONTEXT_STEPS = 4000000

  DEADLINE = 300
  REFINE_TIME = 150

  def run_here(self, key):
    self.violations = {}
    steps = self.interp.steps
    self.interp.max_steps = steps + self.CONTEXT_STEPS
    try:
      changed = self.run_context(key)
    except AnalysisError as ex:
      # not decided: assume nothing about what this function does
      self.stats.setdefault("undecided", set()).add("%s: %s" % (key[0], ex))
      self.violations = {}
      changed = False
      for oc in (Outcome(("other",), "me", "?", None), Outcome(("none",), "e", "?", None)):
        if oc.key() not in self.summaries[key]:
          self.summaries[key][oc.key()] = oc
          changed = True
    return changed, self.interp.steps - steps, self.violations

  def run_batch(self, batch):
    """Analyse contexts, several at a time in forked processes."""
    self.worklist = []
    if len(batch) == 1:
      return [(batch[0],) + self.run_here(batch[0])]
    kids = []
    for key in batch:
      r, w = os.pipe()
      sys.stdout.flush()
      sys.stderr.flush()
      try:
        pid = os.fork()
      except OSError:
        pid = -1
      if pid == 0:
        code = 1
        try:
          os.close(r)
          data = self.child(key)
          with os.fdopen(w, "wb") as fp:
            fp.write(data)
          code = 0
        finally:
          os._exit(code)
      os.close(w)
      kids.append((key, pid, r))
    out = []
    for key, pid, r in kids:
      with os.fdopen(r, "rb") as fp:
        data = fp.read()
      if pid > 0:
        os.waitpid(pid, 0)
      if not data:
        out.append((key,) + self.run_here(key))
        continue
      out.append((key,) + self.absorb(key, Thaw(io.BytesIO(data), self.registry()).load()))
    return out

  def child(self, key):
    old = {k: set(v) for k, v in self.deps.items()}
    known = set(self.summaries)
    always = set(self.inline_always)
    self.stats = {k: 0 if isinstance(v, int) else type(v)() for k, v in self.stats.items()}
    changed, steps, reps = self.run_here(key)
    new = [k for k in self.summaries if k not in known]
    doc = (changed, steps, reps, [(o.res, o.consumed, o.post, o.first) for o in self.summaries[key].values()],
           [(k, self.meta[k], self.ctxinfo[k]) for k in new],
           [(k, sorted(v - old.get(k, set()), key=str)) for k, v in self.deps.items() if v - old.get(k, set())],
           self.stats, sorted(self.inline_always - always), self.childkinds)
    buf = io.BytesIO()
    Freeze(buf, self.registry()).dump(doc)
    return buf.getvalue()

  def absorb(self, key, doc):
    changed, steps, reps, outs, new, deps, stats, always, kinds = doc
    self.summaries[key] = {o.key(): o for o in (Outcome(*x) for x in outs)}
    for k, meta, info in new:
      if k not in self.summaries:
        self.summaries[k] = {}
        self.meta[k] = meta
        self.ctxinfo[k] = info
        self.worklist.append(k)
    for k, v in deps:
      self.deps.setdefault(k, set()).update(v)
    for k, v in stats.items():
      if isinstance(v, int):
        self.stats[k] = self.stats.get(k, 0) + v
      elif isinstance(v, dict):
        for x, y in v.items():
          self.stats.setdefault(k, {}).setdefault(x, set()).update(y)
      else:
        self.stats.setdefault(k, set()).update(v)
    self.inline_always.update(always)
    for p, cs in kinds.items():
      for c, w in cs.items():
        self.childkinds.setdefault(p, {}).setdefault(c, set()).update(w)
    return changed, steps, reps

  def registry(self):
    """The program's own objects, which processes refer to by address."""
    if not hasattr(self, "_registry"):
      objs = list(self.model.modules.values()) + list(self.model.classes.values()) + \
          list(self.model.functions.values())
      for m in self.model.modules.values():
        objs.extend(ast.walk(m.tree))
      self._registry = {id(o): o for o in objs}
    return self._registry

  def refine(self):
    """Re-analyse what was reported with the callees in place of their
    summaries: a report that the callees' actual behaviour rules out is dropped."""
    first = self.violations
    again = {}
    stats = self.stats
    self.stats = {k: type(v)() if not isinstance(v, int) else 0 for k, v in stats.items()}
    budget = self.interp.max_steps
    summaries = {k: dict(v) for k, v in self.summaries.items()}
    done = {}
    started = time.time()
    for vk, v in first.items():
      for ctx in sorted(v["contexts"], key=str):
        if vk in again:
          break
        callees = frozenset(q for q in v["callees"] if q != ctx[0])
        ctx, dk = ctx, (ctx, callees)
        if dk not in done and callees and time.time() - started > self.REFINE_TIME:
          stats.setdefault("undecided", set()).add("%s: no time to confirm a report" % ctx[0])
          continue
        if dk not in done:
          self.refining = callees
          self.violations = {}
          self.interp.max_steps = self.interp.steps + self.REFINE_STEPS
          nsum = set(self.summaries)
          try:
            self.run_context(ctx)
            done[dk] = self.violations
            if set(self.summaries) - nsum:
              done[dk] = None      # calls for contexts that were not analysed
          except AnalysisError:
            done[dk] = None
          self.summaries = {k: dict(x) for k, x in summaries.items()}
        if done[dk] is None:
          again[vk] = v
        elif vk in done[dk]:
          again[vk] = done[dk][vk]
    self.refined = len(done)
    self.refining = ()
    self.interp.max_steps = budget
    self.worklist = []
    self.stats = stats
    self.violations = again

  def single(self, info, name):
    """Class of the one object a list parameter always holds, if the points-to
    analysis shows that: every list that reaches it is a display of one instance
    of a class without state."""
    k = (info.qual, name)
    if k in self._singles:
      return self._singles[k]
    a = self.alias
    u = a.units.get(id(info.node))
    arg = next((x for x in info.node.args.args if x.arg == name), None)
    res = None
    if u is not None and arg is not None:
      m = a.value((u.qual, arg.arg, arg.lineno, arg.col_offset))
      sites = [a.sites[b] for b in alias.bits(m)]
      disp = self._displays()
      if sites and all(s.kind == "list" and s.idx in disp for s in sites):
        el = [a.sites[b] for b in alias.bits(a.elems(m))]
        if len(el) == 1 and isinstance(el[0].klass, Klass) and \
            el[0].klass.lookup("__init__")[1] is None:
          res = el[0].klass
    self._singles[k] = res
    return res

  def _displays(self):
    """Sites of list displays with exactly one item that nothing extends."""
    if not hasattr(self, "_disp"):
      a = self.alias
      grown = set()
      for _, node, what, mask in a.mutations.values():
        grown.update(alias.bits(mask))
      self._disp = {s.idx for s in a.sites if s.kind == "list" and s.idx not in grown and
                    isinstance(getattr(s, "node", None), ast.List) and len(s.node.elts) == 1 and
                    not isinstance(s.node.elts[0], ast.Starred)}
    return self._disp

  def run_context(self, key):
    interp = self.interp
    qual, aenv, pre = key
    if qual in self.inline_always:
      return False
    info = self.ctxinfo[key]
    self.current = key
    st = State()
    st.p = self.initial()
    st.frames[0] = {"$mod": ModV(info.mod)}
    st.cur = 0
    if pre[0] == "end":
      st.p.end = True
    elif pre[0] == "tok":
      t = self.newtok(st)
      st.p.ahead = (t,)
      st.dom[U(("attr", t, "type"))] = ("in", frozenset(E(LEX, k) for k in pre[1]))
    env = dict(aenv)
    nodearg = None
    for k, a in env.items():
      if isinstance(a, U) and a.key[0] == "nodeparam":
        lref = interp.alloc(st, ("nodeparam", "children"), Lst([Many(U(("prefix",)))]))
        attrs = {"children": lref}
        if a.key[2] != NONE:
          attrs["node_type"] = a.key[2]
        nodearg = interp.alloc(st, ("nodeparam", k), Inst(self.model.classes[a.key[1].v], attrs))
        env[k] = nodearg
        st.p.d["nodearg"] = nodearg
      elif a == U(("arg", k)):
        kl = self.single(info, k)
        if kl is not None:
          el = interp.alloc(st, ("single", k, "el"), Inst(kl, {}))
          env[k] = interp.alloc(st, ("single", k), Lst([el]))
    args = [env[p] for p in info.params]
    kw = {x.arg: env[x.arg] for x in info.node.args.kwonlyargs}
    va = info.node.args.vararg
    results = self.interp.inline(st, FnV(info, None), args, kw, info.node)
    new = {}
    changed = False
    for s, v in results:
      self.stats["paths"] += 1
      if isinstance(v, Sig):
        if v.kind == "raise":
          self.on_escape(s, v.val, info)
        continue
      oc = self.outcome(s, v, info, nodearg)
      if oc is None:
        self.inline_always.add(qual)
        return True
      k = oc.key()
      have = self.summaries[key]
      if k not in have and not any(
          (o.res, o.consumed, o.post) == (oc.res, oc.consumed, "?") for o in have.values()):
        if oc.post == "?":
          for k2 in [k2 for k2, o in have.items() if (o.res, o.consumed) == (oc.res, oc.consumed)]:
            del have[k2]
        have[k] = oc
        changed = True
    return changed

  ALLOWED_EXC = None

  def on_escape(self, st, exc, info):
    cls = exc.cls if isinstance(exc, ExcV) else "?"
    self.stats["raises"].setdefault(cls, set()).add(info.qual)
    if cls == "?":
      return
    bases = exc_bases(self.model, cls)
    if self.ALLOWED_EXC is not None and not (bases & self.ALLOWED_EXC):
      where = None
      fn = info.qual
      t = st.trace
      while t is not None:
        if "raise " in t[2] or "assertion" in t[2]:
          where = t[1]
          break
        t = t[0]
      if where is None and st.trace is not None:
        where = st.trace[1]
      self.report(st, "C03", "escape", info.node,
                  "%s can escape from the parser and is not turned into a message" % cls,
                  construct="%s escapes" % cls, where=where or info.where)

  def outcome(self, s, v, info, nodearg=None):
    p = s.p
    log = [x for x in p.log if not is_mark(x)]
    own = [x for x in log if not (is_tok(x) and self.kindset(s, x) <= {"BYTEORDER_MARK"})
           and not (is_lost(x) and x.key[1][2] == "bom")]
    flat = self.flatten(s, v)
    if nodearg is not None and not p.d.get("giveup"):
      nodearg = p.d["nodearg"]
      lo = s.heap.get(self.children_ref(s, nodearg))
      if flat or not isinstance(lo, Lst) or not lo.items or lo.items[0] != Many(U(("prefix",))):
        if DEBUG: print("IA1", info.qual, flat, lo and getattr(lo, "items", lo), own)
        return None
      for x in lo.items[1:]:
        flat.extend(self.flatten(s, x))
      if flat != own and not any(is_lost(x) for x in own):
        reach = self.reach(s, [v, nodearg])
        if any(x in reach for x in own if x not in flat):
          if DEBUG: print("IA2", info.qual, flat, own, lo.items)
          return None
        # what was taken is out of everybody's reach once this returns
    if flat != own and not p.d.get("giveup"):
      self.ownership_error(s, v, own, flat, info)
    self.stats["returns"].add(info.qual)
    if any(nonempty(x) for x in log):
      cons = "ne"
    elif log:
      cons = "me"
    else:
      cons = "e"
    # what is known about the next token, if it is worth remembering
    if p.ahead and not is_run(p.ahead[0]) and len(self.kindset(s, p.ahead[0])) == 1:
      post, first = "tok", self.kindset(s, p.ahead[0])
    elif p.end and not p.ahead:
      post, first = "end", None
    else:
      post, first = "?", None
    if cons == "me":
      self.stats.setdefault("me", set()).add(info.qual)
    if v == NONE:
      res = ("none",)
    elif isinstance(v, (C, E)):
      res = ("const", v)
    elif isinstance(v, Ref) and self.children_ref(s, v) is not None:
      o = s.heap[v]
      attrs = []
      for k in sorted(o.attrs):
        a = o.attrs[k]
        if k == "children":
          continue
        if isinstance(a, (C, E)) and k in ("node_type",):
          attrs.append((k, a))
        elif isinstance(a, Ref) and isinstance(s.heap.get(a), Lst):
          attrs.append((k, "list"))
      res = ("node", o.klass.qual, tuple(attrs))
    else:
      res = ("other",)
    return Outcome(res, cons, post, first)

  def reach(self, s, roots):
    """Everything that can be reached from these values, or from attributes of
    objects that were passed in."""
    seen, todo = set(), list(roots) + list(s.uattr.values())
    while todo:
      for x in iter_vals(todo.pop()):
        if x in seen:
          continue
        seen.add(x)
        o = s.heap.get(x) if isinstance(x, Ref) else None
        if o is not None:
          todo.extend(o.values())
    return seen

  def ownership_error(self, s, v, own, flat, info):
    if v == NONE or not flat and own:
      rule, msg = "dropped", "tokens are taken but the returned tree does not contain them"
    else:
      missing = [x for x in own if x not in flat]
      extra = [x for x in flat if x not in own]
      dup = len(flat) != len(set(flat))
      if missing:
        rule, msg = "dropped", "a token is taken from the input but not stored in the returned tree"
      elif dup or extra:
        rule, msg = "duplicated", "a token is stored more than once (or not taken first)"
      else:
        rule, msg = "order", "tokens are stored out of order"
    missing = [x for x in own if x not in flat]
    self.report(s, "C01", rule, info.node, msg, construct="%s in %s" % (rule, info.node.name),
                where=info.where)


def enclosing(n, kind):
  while n is not None and not isinstance(n, kind):
    n = getattr(n, "_parent", None)
  return n


def src(node):
  try:
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
      return node.name
    return " ".join(ast.unparse(node).split())[:120]
  except Exception:
    return type(node).__name__


def handled(model):
  """Exceptions which both programs turn into a message and an exit status."""
  out = None
  for mod in ("cmakelang.format.__main__", "cmakelang.lint.__main__"):
    m = model.module(mod)
    names = set()
    for info in model.functions.values():
      if info.mod is not m or info.klass is not None:
        continue
      for n in walk_own(info.node):
        if isinstance(n, ast.ExceptHandler) and any(
            isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value for x in ast.walk(n)):
          if n.type is None or dotted(n.type) in ("Exception", "BaseException"):
            # the last resort: that an internal consistency check failed is
            # worth no other message than the one printed here
            names.add("AssertionError")
          if n.type is None:
            continue
          for t in n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]:
            ent = model.resolve_expr(m, t)
            names.add(ent.qual if isinstance(ent, Klass) else dotted(t))
    out = names if out is None else out & names
  if not out:
    raise AnchorError("no handlers of diagnosed errors in the programs' main()")
  return out


def run(model):
  pl = TokPlugin(model)
  pl.ALLOWED_EXC = handled(model)
  it = TokInterp(model, pl)
  pl.analyse()
  return pl


def check(ctx, prop):
  """Report what concerns one property."""
  pl = run(ctx.model)
  for v in pl.violations.values():
    if v["property"] != prop:
      continue
    path = [str(x) for x in v["path"]]
    ctx.violation(v["rule"], "%s [%s]" % (v["construct"], v["function"].replace("cmakelang.parse.", "")),
                  v["where"], "%s (%s); path: %s" % (v["message"], v["context"], " -> ".join(path[-8:])))
  for k in ("contexts", "paths"):
    ctx.count(k, pl.stats.get(k, 0))
  for k in ("takes", "peeks", "loops", "stores", "returns"):
    ctx.count(k, len(pl.stats.get(k, ())))
    if k != "returns":
      for x in sorted(pl.stats.get(k, ()))[:3]:
        ctx.sample("%s: %s" % (k, x))
  ctx.count("table_parsers", len(pl.candidates))
  ctx.count("summary_rounds", pl.rounds)
  ctx.count("contexts_refined", pl.refined)
  for q in sorted(pl.stats.get("undecided", ())):
    ctx.undecide(q)
  ctx.assume("names in the keyword and flag tables are strings, none of which is spelled like a comment or white space")
  ctx.assume("a parser stored in a command table keeps the contract each listed table parser is checked against")
  ctx.assume("exceptions both programs handle: %s" % ", ".join(sorted(pl.ALLOWED_EXC)))
