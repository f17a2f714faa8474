"""Flow-insensitive, whole-program value sets of expressions.

`Flow.values(node)` over-approximates, as a set of abstract values, what an
expression can evaluate to: parameters take the values of every call site that
can reach the function, locals those of every assignment, calls of package
functions those of every return.  Abstract values:

  ("str", s) ("int", n) ("none",) ("bool", b)     constants
  ("strk",) ("intk",) ("boolk",) ("tupk",) ("listk",)   kind known only
  ("tup", (frozenset, ...)) ("seq", frozenset)     sequences of value sets
  ("dict", ((frozenset k, frozenset v), ...))      dictionary displays
  ("opt", path)                                    configuration option
  ("?",)                                           anything
"""
import ast
from .model import dotted

ANY = frozenset([("?",)])
STR = frozenset([("strk",)])
INT = frozenset([("intk",)])
BOOL = frozenset([("boolk",)])
MAXDEPTH = 24

STR_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "format", "join",
               "replace", "title", "capitalize", "ljust", "rjust", "expandtabs",
               "group", "get_funname", "swapcase", "center", "zfill"}
INT_METHODS = {"count", "find", "rfind", "index", "count_newlines"}


def enclosing(node):
  """The function definition (or lambda) a node belongs to, or None."""
  n = getattr(node, "_parent", None)
  while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
    n = getattr(n, "_parent", None)
  return n


def comp_targets(node):
  """Comprehension generators whose variables are visible at `node`."""
  out = []
  n, ch = getattr(node, "_parent", None), node
  while n is not None and not isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)):
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
      out.extend(n.generators)
    n, ch = getattr(n, "_parent", None), n
  return out


def binds(target, name):
  return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(target))


class Flow:
  def __init__(self, model):
    self.model = model
    self.mod_of = {}
    self.calls = {}      # simple callee name -> [Call]
    self.defs = {}       # simple name -> [FunctionDef]
    for m in model.modules.values():
      self.mod_of[id(m.tree)] = m
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
          f = n.func
          nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
          if nm:
            self.calls.setdefault(nm, []).append(n)
        elif isinstance(n, ast.FunctionDef):
          self.defs.setdefault(n.name, []).append(n)
    self.memo = {}
    self.stack = []

  def module_of(self, node):
    n = node
    while getattr(n, "_parent", None) is not None:
      n = n._parent
    return self.mod_of.get(id(n))

  # -- expressions
  def values(self, e):
    k = id(e)
    if k in self.memo:
      return self.memo[k]
    if k in self.stack:
      return frozenset()
    if len(self.stack) > MAXDEPTH * 8:
      return ANY
    self.stack.append(k)
    try:
      v = frozenset(self._values(e))
    finally:
      self.stack.pop()
    if len(v) > 60:
      v = ANY
    if not self.stack:
      self.memo[k] = v
    return v

  def _values(self, e):
    V = self.values
    if isinstance(e, ast.Constant):
      c = e.value
      if c is None:
        return [("none",)]
      if isinstance(c, bool):
        return [("bool", c)]
      if isinstance(c, str):
        return [("str", c)]
      if isinstance(c, int):
        return [("int", c)]
      return ANY
    if isinstance(e, ast.JoinedStr):
      return STR
    if isinstance(e, ast.Tuple):
      if any(isinstance(x, ast.Starred) for x in e.elts):
        return [("tupk",)]
      return [("tup", tuple(V(x) for x in e.elts))]
    if isinstance(e, (ast.List, ast.Set)):
      if any(isinstance(x, ast.Starred) for x in e.elts):
        return [("listk",)]
      return [("seq", frozenset().union(*[V(x) for x in e.elts]) if e.elts else frozenset())]
    if isinstance(e, ast.Dict):
      if any(k is None for k in e.keys):
        return ANY
      return [("dict", tuple((V(k), V(v)) for k, v in zip(e.keys, e.values)))]
    if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
      return [("seq", V(e.elt))]
    if isinstance(e, ast.IfExp):
      return V(e.body) | V(e.orelse)
    if isinstance(e, ast.BoolOp):
      return frozenset().union(*[V(x) for x in e.values])
    if isinstance(e, (ast.Compare,)):
      return BOOL
    if isinstance(e, ast.UnaryOp):
      if isinstance(e.op, ast.Not):
        return BOOL
      return self.arith(V(e.operand), V(e.operand), ast.Sub())
    if isinstance(e, ast.BinOp):
      return self.arith(V(e.left), V(e.right), e.op)
    if isinstance(e, ast.Name):
      return self.name(e)
    if isinstance(e, ast.Attribute):
      return self.attribute(e)
    if isinstance(e, ast.Subscript):
      if isinstance(e.slice, ast.Slice):
        b = V(e.value)
        return STR if self.all_kind(b, "str") else [("listk",)] if self.all_kind(b, "list") else ANY
      out = set()
      for b in V(e.value):
        if b[0] == "tup" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) \
            and -len(b[1]) <= e.slice.value < len(b[1]):
          out |= b[1][e.slice.value]
        elif b[0] == "dict":
          ks = V(e.slice)
          for k, v in b[1]:
            if (k & ks) or not all(x[0] in ("str", "int") for x in ks):
              out |= v
        elif b[0] == "seq":
          out |= b[1]
        elif b[0] in ("str", "strk"):
          out |= STR
        else:
          out |= ANY
      return out
    if isinstance(e, ast.Call):
      return self.call(e)
    return ANY

  def kind(self, v):
    return {"str": "str", "strk": "str", "int": "int", "intk": "int", "none": "none",
            "bool": "int", "boolk": "int", "tup": "tuple", "tupk": "tuple", "seq": "list",
            "listk": "list", "dict": "dict"}.get(v[0])

  def all_kind(self, vs, k):
    return bool(vs) and all(self.kind(v) == k for v in vs)

  def arith(self, a, b, op):
    if self.all_kind(a, "int") and self.all_kind(b, "int") and not isinstance(op, ast.Div):
      return INT
    if isinstance(op, ast.Add) and (self.all_kind(a, "str") or self.all_kind(b, "str")):
      return STR
    if isinstance(op, ast.Mod) and self.all_kind(a, "str"):
      return STR
    if isinstance(op, ast.Mult) and (self.all_kind(a, "str") or self.all_kind(b, "str")):
      return STR
    if isinstance(op, ast.Add):
      out = set()
      for x in a | b:
        out.add(x if x[0] == "seq" else ("?",))
      return out
    return ANY

  def elements(self, vs):
    out = set()
    for v in vs:
      if v[0] == "tup":
        for x in v[1]:
          out |= x
      elif v[0] == "seq":
        out |= v[1]
      elif v[0] == "dict":
        for k, _ in v[1]:
          out |= k
      elif v[0] in ("str", "strk"):
        out |= STR
      else:
        out |= ANY
    return frozenset(out)

  def destructure(self, target, vs, name):
    """Values `name` gets when `target` is assigned a value of `vs`."""
    if isinstance(target, ast.Name):
      return vs if target.id == name else frozenset()
    if isinstance(target, (ast.Tuple, ast.List)):
      out = set()
      for i, t in enumerate(target.elts):
        if not binds(t, name):
          continue
        sub = set()
        for v in vs:
          if v[0] == "tup" and len(v[1]) == len(target.elts):
            sub |= v[1][i]
          elif v[0] in ("seq", "dict"):
            sub |= self.elements([v])
          else:
            sub |= ANY
        out |= self.destructure(t, frozenset(sub), name)
      return frozenset(out)
    if isinstance(target, ast.Starred):
      return ANY if binds(target, name) else frozenset()
    return frozenset()

  def name(self, e):
    name = e.id
    for g in comp_targets(e):
      if binds(g.target, name):
        return self.destructure(g.target, self.elements(self.values(g.iter)), name)
    fn = enclosing(e)
    while fn is not None:
      out, found = set(), False
      for v in self.bindings(fn, name):
        found = True
        out |= v
      if found:
        return out
      fn = enclosing(fn)
    m = self.module_of(e)
    if m is None:
      return ANY
    ent = self.model.resolve_name(m, name)
    return self.entity(ent)

  def entity(self, ent):
    if isinstance(ent, tuple) and ent[0] == "var":
      out = set()
      for b in ent[1].bind.get(ent[2], ()):
        if b[0] == "assign" and isinstance(b[1], ast.Assign):
          for t in b[1].targets:
            if binds(t, ent[2]):
              out |= self.destructure(t, self.values(b[1].value), ent[2])
        else:
          out |= ANY
      return out or ANY
    return ANY

  def bindings(self, fn, name):
    a = fn.args
    allp = a.posonlyargs + a.args
    names = [x.arg for x in allp]
    if name in names or name in [x.arg for x in a.kwonlyargs]:
      yield self.param(fn, name)
    if a.vararg and a.vararg.arg == name:
      yield frozenset([("tupk",)])
    if a.kwarg and a.kwarg.arg == name:
      yield ANY
    for n in ast.walk(fn):
      if enclosing(n) is not fn:
        continue
      if isinstance(n, ast.Assign):
        for t in n.targets:
          if binds(t, name) and not isinstance(t, (ast.Attribute, ast.Subscript)):
            yield self.destructure(t, self.values(n.value), name)
      elif isinstance(n, ast.AnnAssign) and n.value is not None and binds(n.target, name):
        yield self.values(n.value)
      elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
        base = frozenset([("int", 0)]) if self.all_kind(self.values(n.value), "int") else self.values(n.value)
        yield self.arith(base, self.values(n.value), n.op)
      elif isinstance(n, (ast.For, ast.AsyncFor)) and binds(n.target, name):
        yield self.destructure(n.target, self.elements(self.values(n.iter)), name)
      elif isinstance(n, (ast.With, ast.AsyncWith)):
        for i in n.items:
          if i.optional_vars is not None and binds(i.optional_vars, name):
            yield ANY
      elif isinstance(n, ast.NamedExpr) and n.target.id == name:
        yield self.values(n.value)
      elif isinstance(n, ast.ExceptHandler) and n.name == name:
        yield ANY
      elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn and n.name == name:
        yield ANY

  def callers(self, fn):
    """Call expressions which can reach the function (by name)."""
    if fn.name == "__init__":
      k = getattr(fn, "_parent", None)
      return self.calls.get(k.name, []) if isinstance(k, ast.ClassDef) else []
    return self.calls.get(fn.name, [])

  def param(self, fn, name):
    a = fn.args
    allp = [x.arg for x in a.posonlyargs + a.args]
    kwonly = [x.arg for x in a.kwonlyargs]
    out = set()
    if name in allp:
      i = allp.index(name)
      j = i - (len(allp) - len(a.defaults))
      if j >= 0:
        out |= self.values(a.defaults[j])
    elif name in kwonly:
      i = None
      d = a.kw_defaults[kwonly.index(name)]
      if d is not None:
        out |= self.values(d)
    static = any(dotted(d) == "staticmethod" for d in fn.decorator_list)
    method = isinstance(getattr(fn, "_parent", None), ast.ClassDef) and not static
    if method and i == 0:
      return ANY
    calls = self.callers(fn)
    if not calls:
      return out | ANY
    for c in calls:
      pos = i
      if method and i is not None:
        # Klass.method(self, ...) passes the receiver explicitly
        explicit = False
        if isinstance(c.func, ast.Attribute):
          ent = self.model.resolve_expr(self.module_of(c), c.func.value)
          explicit = type(ent).__name__ == "Klass" and not any(
              dotted(d) == "classmethod" for d in fn.decorator_list) and fn.name != "__init__"
        if not explicit:
          pos = i - 1
      if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
        out |= ANY
        continue
      kw = [k.value for k in c.keywords if k.arg == name]
      if kw:
        out |= self.values(kw[0])
      elif pos is not None and 0 <= pos < len(c.args):
        out |= self.values(c.args[pos])
    return out

  def attribute(self, e):
    d = dotted(e)
    if d is not None:
      parts = d.split(".")
      m = self.module_of(e)
      ent = self.model.resolve_expr(m, e) if m else None
      if isinstance(ent, tuple) and ent[0] == "var":
        return self.entity(ent)
    opt = self.option(e)
    if opt:
      return [("opt", opt)]
    if e.attr == "spelling":
      return STR
    if e.attr in ("line", "lineno", "col", "row"):
      return INT
    return ANY

  SECTIONS = ("format", "lint", "markup", "parse", "encode", "misc")

  def option(self, e):
    """`x.section.option` -> "section.option"."""
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Attribute) and e.value.attr in self.SECTIONS:
      return e.value.attr + "." + e.attr
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
      fn = enclosing(e)
      if fn is not None:
        for n in ast.walk(fn):
          if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.value.id for t in n.targets) \
              and isinstance(n.value, ast.Attribute) and n.value.attr in self.SECTIONS:
            return n.value.attr + "." + e.attr
    return None

  def call(self, e):
    f = e.func
    nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
    m = self.module_of(e)
    ent = self.model.resolve_expr(m, f) if m is not None and dotted(f) else None
    if isinstance(f, ast.Name) and isinstance(ent, tuple) and ent[0] == "ext":
      if nm in ("len", "int", "ord", "abs"):
        return INT
      if nm == "sum":
        return INT
      if nm in ("str", "repr", "chr"):
        return STR
      if nm in ("sorted", "list", "tuple", "set", "frozenset", "reversed", "iter"):
        if not e.args:
          return [("seq", frozenset())]
        return [("seq", self.elements(self.values(e.args[0])))]
      if nm == "enumerate" and e.args:
        return [("seq", frozenset([("tup", (INT, self.elements(self.values(e.args[0]))))]))]
      if nm == "zip":
        return [("seq", frozenset([("tup", tuple(self.elements(self.values(a)) for a in e.args))]))]
      if nm == "dict":
        if len(e.args) == 1 and not e.keywords:
          out = set()
          for v in self.values(e.args[0]):
            out.add(v if v[0] == "dict" else ("?",))
          return out
        if not e.args and all(k.arg for k in e.keywords):
          return [("dict", tuple((frozenset([("str", k.arg)]), self.values(k.value)) for k in e.keywords))]
        return ANY
      if nm == "next" and e.args:
        out = set(self.elements(self.values(e.args[0])))
        if len(e.args) > 1:
          out |= self.values(e.args[1])
        return out
      if nm in ("min", "max"):
        if len(e.args) == 1:
          return self.elements(self.values(e.args[0]))
        return frozenset().union(*[self.values(a) for a in e.args])
      if nm == "isinstance":
        return BOOL
      return ANY
    if isinstance(f, ast.Attribute):
      if nm in ("items", "keys", "values", "iteritems") and not e.args:
        out = set()
        for b in self.values(f.value):
          if b[0] == "dict":
            if nm == "keys":
              s = frozenset().union(*[k for k, _ in b[1]]) if b[1] else frozenset()
            elif nm == "values":
              s = frozenset().union(*[v for _, v in b[1]]) if b[1] else frozenset()
            else:
              s = frozenset(("tup", (k, v)) for k, v in b[1])
            out.add(("seq", s))
          else:
            out |= ANY
        return out
      if nm in ("pop", "get") and e.args:
        out = set()
        for b in self.values(f.value):
          if b[0] == "dict":
            ks = self.values(e.args[0])
            for k, v in b[1]:
              if (k & ks) or not all(x[0] in ("str", "int") for x in ks):
                out |= v
          elif b[0] == "seq":
            out |= b[1]
          else:
            out |= ANY
        if len(e.args) > 1:
          out |= self.values(e.args[1])
        elif nm == "get":
          out.add(("none",))
        return out
      if nm == "copy" and not e.args:
        return self.values(f.value)
    qual = getattr(ent, "qual", None)
    if qual and type(ent).__name__ == "FunctionInfo":
      out = self.returns(ent.node)
      if out:
        return out
    if isinstance(f, ast.Attribute):
      cands = self.defs.get(nm, [])
      if cands and nm not in STR_METHODS | INT_METHODS:
        out = set()
        for d in cands:
          out |= self.returns(d) or ANY
        return out
      if nm in STR_METHODS:
        return STR
      if nm in INT_METHODS:
        return INT
      if nm in ("split", "splitlines", "rsplit"):
        return [("seq", STR)]
    return ANY

  def returns(self, fnode):
    out = set()
    for n in ast.walk(fnode):
      if enclosing(n) is fnode:
        if isinstance(n, ast.Return):
          out |= self.values(n.value) if n.value is not None else frozenset([("none",)])
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
          return ANY
    return frozenset(out)


# -- guards

def terminal(stmts):
  """The block always leaves (return/continue/break/raise)."""
  if not stmts:
    return False
  s = stmts[-1]
  if isinstance(s, (ast.Return, ast.Continue, ast.Break, ast.Raise)):
    return True
  if isinstance(s, ast.If):
    return terminal(s.body) and terminal(s.orelse)
  return False


def guards(node):
  """(test, polarity) pairs which hold whenever `node` is reached, in its
  function: enclosing branches and earlier branches that leave."""
  out = []
  n = node
  while n is not None and not isinstance(n, (ast.FunctionDef, ast.Module, ast.Lambda)):
    p = getattr(n, "_parent", None)
    if p is None:
      break
    if isinstance(p, (ast.If, ast.While)) and n is not p.test:
      out.append((p.test, n in p.body))
    elif isinstance(p, ast.IfExp) and n is not p.test:
      out.append((p.test, n is p.body))
    for field in ("body", "orelse", "finalbody"):
      blk = getattr(p, field, None)
      if isinstance(blk, list) and n in blk:
        for s in blk[:blk.index(n)]:
          if isinstance(s, ast.If):
            if terminal(s.body):
              out.append((s.test, False))
            elif s.orelse and terminal(s.orelse):
              out.append((s.test, True))
          elif isinstance(s, ast.Assert):
            out.append((s.test, True))
    n = p
  return out


def atoms(test, pol):
  """Literals (test, polarity) implied by a guard."""
  if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
    return atoms(test.operand, not pol)
  if isinstance(test, ast.BoolOp):
    if (isinstance(test.op, ast.And) and pol) or (isinstance(test.op, ast.Or) and not pol):
      r = []
      for v in test.values:
        r.extend(atoms(v, pol))
      return r
  return [(test, pol)]


def expand(e, depth=0):
  """Expression text with single-assignment locals replaced by their value."""
  class T(ast.NodeTransformer):
    def visit_Name(self, n):
      if not isinstance(n.ctx, ast.Load) or depth > 6:
        return n
      fn = enclosing(n)
      if fn is None:
        return n
      a = fn.args
      if n.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
        return n
      found = []
      for x in ast.walk(fn):
        if isinstance(x, ast.Assign):
          for t in x.targets:
            if isinstance(t, ast.Name) and t.id == n.id:
              found.append(x.value)
            elif binds(t, n.id) and not isinstance(t, (ast.Attribute, ast.Subscript)):
              found.append(None)
        elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)) and binds(x.target, n.id):
          found.append(None)
      if len(found) == 1 and found[0] is not None:
        return ast.parse(expand(found[0], depth + 1), mode="eval").body
      return n
  return _expand_text(e, T())


def _expand_text(e, tr):
  return ast.unparse(_rebuild(e, tr))


def _rebuild(e, tr):
  if isinstance(e, ast.Name):
    return tr.visit_Name(e)
  kw = {}
  for f, v in ast.iter_fields(e):
    if isinstance(v, ast.AST):
      kw[f] = _rebuild(v, tr)
    elif isinstance(v, list):
      kw[f] = [_rebuild(x, tr) if isinstance(x, ast.AST) else x for x in v]
    else:
      kw[f] = v
  n = type(e)(**kw)
  return ast.copy_location(n, e) if hasattr(e, "lineno") else n


# -- definite assignment

class _Top(set):
  """The state of unreachable code: everything is assigned."""
  def __contains__(self, x):
    return True


TOP = _Top()


def meet(a, b):
  if a is TOP:
    return b
  if b is TOP:
    return a
  return a & b


def targets(t):
  return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def assigned_before(fn, node):
  """Names certainly assigned when the statement holding `node` starts."""
  found = []
  stmt = node
  while not isinstance(stmt, ast.stmt):
    stmt = stmt._parent
  a = fn.args
  init = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
  for x in (a.vararg, a.kwarg):
    if x:
      init.add(x.arg)

  def add(st, names):
    return st if st is TOP else st | names

  def walrus(e):
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)} if e is not None else set()

  def block(stmts, st, loops):
    for s in stmts:
      st = one(s, st, loops)
    return st

  def one(s, st, loops):
    if s is stmt:
      found.append(st)
    if isinstance(s, ast.Assign):
      return add(st, set().union(*[targets(t) for t in s.targets]) | walrus(s.value))
    if isinstance(s, ast.AnnAssign):
      return add(st, targets(s.target)) if s.value is not None else st
    if isinstance(s, ast.AugAssign):
      return add(st, targets(s.target))
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
      return add(st, {s.name})
    if isinstance(s, (ast.Import, ast.ImportFrom)):
      return add(st, {(x.asname or x.name).split(".")[0] for x in s.names})
    if isinstance(s, (ast.Return, ast.Raise)):
      return TOP
    if isinstance(s, (ast.Break, ast.Continue)):
      if loops and isinstance(s, ast.Break):
        loops[-1].append(st)
      return TOP
    if isinstance(s, ast.If):
      b = block(s.body, st, loops)
      o = block(s.orelse, st, loops)
      return meet(b, o)
    if isinstance(s, (ast.For, ast.AsyncFor)):
      brk = []
      block(s.body, add(st, targets(s.target)), loops + [brk])
      out = block(s.orelse, st, loops)
      for b in brk:
        out = meet(out, b)
      return out
    if isinstance(s, ast.While):
      brk = []
      block(s.body, add(st, walrus(s.test)), loops + [brk])
      forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
      out = TOP if forever else block(s.orelse, st, loops)
      for b in brk:
        out = meet(out, b)
      return out
    if isinstance(s, (ast.With, ast.AsyncWith)):
      for i in s.items:
        if i.optional_vars is not None:
          st = add(st, targets(i.optional_vars))
      return block(s.body, st, loops)
    if isinstance(s, ast.Try):
      b = block(s.body, st, loops)
      b = block(s.orelse, b, loops)
      for h in s.handlers:
        b = meet(b, block(h.body, add(st, {h.name} if h.name else set()), loops))
      return block(s.finalbody, b, loops) if b is TOP or not s.finalbody else \
          b | block(s.finalbody, st, loops)
    return st
  block(fn.body, init, [])
  return found[0] if found else TOP


def unbound_names(fn, node):
  """Local names read in `node` which some path leaves unassigned."""
  local = set()
  for n in ast.walk(fn):
    if n is not fn and enclosing(n) is fn and isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
      if not any(binds(g.target, n.id) for g in comp_targets(n)):
        local.add(n.id)
  ok = assigned_before(fn, node)
  comp = set()
  for n in ast.walk(node):
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
      for g in n.generators:
        comp |= targets(g.target)
    if isinstance(n, ast.Lambda):
      comp |= {x.arg for x in n.args.args}
  return sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
                 and n.id in local and n.id not in comp and n.id not in ok})
