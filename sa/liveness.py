"""Backward liveness of local names, per statement (used to forget dead
locals so that states which differ only in them are merged)."""
import ast

FUN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def loads(*nodes):
  out = set()
  for n in nodes:
    if n is None:
      continue
    for x in ast.walk(n):
      if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
        out.add(x.id)
  return out


def stores(*nodes):
  out = set()
  for n in nodes:
    if isinstance(n, ast.Name):
      out.add(n.id)
    elif isinstance(n, (ast.Tuple, ast.List)):
      out |= stores(*n.elts)
    elif isinstance(n, ast.Starred):
      out |= stores(n.value)
  return out


class Liveness:
  def __init__(self, fn):
    self.live_in = {}
    self.live_out = {}
    keep = set()
    for n in ast.walk(fn):
      if n is not fn and isinstance(n, FUN + (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp, ast.ClassDef)):
        keep |= loads(n)
      elif isinstance(n, (ast.Global, ast.Nonlocal)):
        keep |= set(n.names)
    if fn.args.args:
      keep.add(fn.args.args[0].arg)
    self.keep = frozenset(keep)
    self.block(fn.body, frozenset(), frozenset(), frozenset(), frozenset())

  def put(self, table, node, val):
    k = id(node)
    table[k] = table.get(k, frozenset()) | val

  def block(self, stmts, out, brk, cont, exc):
    for s in reversed(stmts):
      self.put(self.live_out, s, out)
      out = frozenset(self.stmt(s, out, brk, cont, exc)) | exc
      self.put(self.live_in, s, out)
    return out

  def stmt(self, s, out, brk, cont, exc):
    if isinstance(s, ast.Assign):
      return loads(s) | (out - stores(*s.targets))
    if isinstance(s, ast.AugAssign):
      return loads(s) | stores(s.target) | out
    if isinstance(s, ast.AnnAssign):
      return loads(s.value, s.target) | (out - stores(s.target) if s.value is not None else out)
    if isinstance(s, ast.If):
      return loads(s.test) | self.block(s.body, out, brk, cont, exc) | self.block(s.orelse, out, brk, cont, exc)
    if isinstance(s, ast.While):
      els = self.block(s.orelse, out, brk, cont, exc)
      L = frozenset(loads(s.test)) | els | out
      while True:
        b = self.block(s.body, L, out, L, exc)
        n = L | b
        if n == L:
          return L
        L = n
    if isinstance(s, (ast.For, ast.AsyncFor)):
      els = self.block(s.orelse, out, brk, cont, exc)
      L = els | out
      t = loads(s.target)
      while True:
        b = self.block(s.body, L, out, L, exc)
        n = L | (b - stores(s.target)) | t
        if n == L:
          return loads(s.iter) | L
        L = n
    if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
      fin = self.block(s.finalbody, out, brk, cont, exc) if s.finalbody else out
      e2 = exc | (fin if s.finalbody else frozenset())
      h = frozenset()
      for x in s.handlers:
        b = self.block(x.body, fin, brk, cont, e2)
        h |= loads(x.type) | (b - ({x.name} if x.name else set()))
      els = self.block(s.orelse, fin, brk, cont, e2)
      return self.block(s.body, els, brk, cont, e2 | h)
    if isinstance(s, (ast.With, ast.AsyncWith)):
      r = self.block(s.body, out, brk, cont, exc)
      for i in s.items:
        r = (r - stores(i.optional_vars)) | loads(i.context_expr, i.optional_vars) if i.optional_vars is not None else r | loads(i.context_expr)
      return r
    if isinstance(s, (ast.Return, ast.Raise)):
      return loads(s)
    if isinstance(s, ast.Break):
      return brk
    if isinstance(s, ast.Continue):
      return cont
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
      return loads(s) | (out - {s.name})
    if isinstance(s, ast.Match):
      r = set(out) | loads(s)
      for c in s.cases:
        r |= self.block(c.body, out, brk, cont, exc)
      return r
    r = loads(s) | out
    for x in ast.walk(s):
      if isinstance(x, ast.NamedExpr):
        pass
    return r


_cache = {}


def of(stmt):
  """Liveness of the function that directly contains `stmt` (None at module level)."""
  k = id(stmt)
  if k in _cache:
    return _cache[k][1]
  n = getattr(stmt, "_parent", None)
  while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)):
    n = getattr(n, "_parent", None)
  res = None
  if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
    kk = id(n)
    if kk not in _cache:
      _cache[kk] = (n, Liveness(n))
    res = _cache[kk][1]
  _cache[k] = (stmt, res)
  return res
