"""Whole-program points-to analysis (inclusion based, flow sensitive in local
names, insensitive to calling context).

Objects are allocation sites; instances of a repository class share one object
per class unless they are created while a module is imported.  An object made
by code which runs at import time (module and class bodies, default values of
parameters) is persistent: it is shared by everything the process does."""
import ast

from .model import FunctionInfo, Klass, Module, dotted

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update",
            "setdefault", "popitem", "add", "discard", "difference_update", "intersection_update",
            "symmetric_difference_update", "appendleft", "popleft", "extendleft", "rotate",
            "move_to_end", "__setitem__", "__delitem__", "subtract"}
ADDERS = {"append", "add", "appendleft", "push"}
MERGERS = {"extend", "update", "extendleft", "union", "difference", "intersection",
           "symmetric_difference"}
COPIES = {"list", "tuple", "set", "frozenset", "sorted", "dict", "collections.OrderedDict",
          "OrderedDict", "collections.deque", "deque", "reversed", "enumerate", "zip", "map", "filter",
          "copy.copy", "iter", "itertools.chain", "collections.Counter", "Counter", "range",
          "itertools.islice"}
SETS = {"set", "frozenset"}
DEFAULTDICTS = {"collections.defaultdict", "defaultdict"}
CACHES = {"lru_cache", "cache", "cached_property"}


class Site:
  __slots__ = ("idx", "kind", "where", "klass", "persistent", "desc", "iterator", "mod", "fn", "memo", "node", "bound")

  def __init__(self, idx, kind, where, desc, persistent, klass=None):
    self.idx, self.kind, self.where, self.desc = idx, kind, where, desc
    self.persistent, self.klass = persistent, klass
    self.iterator = False
    self.fn = None
    self.memo = None
    self.node = None
    self.bound = 0


class Unit:
  """A function (or lambda, or the body of a module or class)."""

  def __init__(self, node, mod, qual, outer=None, klass=None, info=None):
    self.node, self.mod, self.qual, self.outer, self.klass, self.info = node, mod, qual, outer, klass, info
    self.loads = {}     # id(Name) -> tuple of binding keys
    self.binds = {}     # name -> set of binding keys
    self.stmts = []     # events to evaluate
    self.imports = {}
    self.globals = set()
    self.nonlocals = set()
    self.is_gen = isinstance(node, (ast.FunctionDef,)) and any(
        isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node))

  @property
  def top(self):
    return isinstance(self.node, (ast.Module, ast.ClassDef))


def own(fn):
  """Nodes of a function without those of nested functions and classes."""
  body = fn.body if isinstance(fn.body, list) else [fn.body]
  work = list(body)
  while work:
    n = work.pop()
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    work.extend(ast.iter_child_nodes(n))


class Narrow:
  """A binding seen where `isinstance(name, types)` has the given truth."""

  __slots__ = ("base", "types", "truth")

  def __init__(self, base, types, truth):
    self.base, self.types, self.truth = base, types, truth

  def ident(self):
    return (self.base, id(self.types), self.truth)


class Reach:
  """Reaching bindings of local names, by structural data flow."""

  def __init__(self, unit, an):
    self.u = unit
    self.an = an

  def run(self):
    u = self.u
    node = u.node
    env = {}
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
      a = node.args
      for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        env[x.arg] = self.bind(x.arg, x)
    if isinstance(node, ast.Lambda):
      self.expr(node.body, env)
    else:
      self.block(node.body, env)

  def bind(self, name, node):
    key = (self.u.qual, name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
    self.u.binds.setdefault(name, set()).add(key)
    return frozenset([key])

  def narrow(self, test, truth, env):
    """isinstance(name, types) holds or fails from here on."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
      return self.narrow(test.operand, not truth, env)
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if truth else ast.Or):
      for v in test.values:
        env = self.narrow(v, truth, env)
      return env
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" \
        and len(test.args) == 2 and isinstance(test.args[0], ast.Name) and test.args[0].id in env:
      nm = test.args[0].id
      out = set()
      for k in env[nm]:
        n = Narrow(k, test.args[1], truth)
        n = self.an.narrows.setdefault(n.ident(), n)
        out.add(n)
      env[nm] = frozenset(out)
    return env

  def target(self, t, env):
    if isinstance(t, ast.Name):
      env[t.id] = self.bind(t.id, t)
    elif isinstance(t, (ast.Tuple, ast.List)):
      for e in t.elts:
        self.target(e, env)
    elif isinstance(t, ast.Starred):
      self.target(t.value, env)
    else:
      for c in ast.iter_child_nodes(t):
        self.expr(c, env)

  def expr(self, e, env):
    if e is None:
      return
    if isinstance(e, ast.Name):
      if e.id in env:
        self.u.loads[id(e)] = env[e.id]
      return
    if isinstance(e, ast.Lambda):
      for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
        self.expr(d, env)
      return
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
      inner = dict(env)
      for g in e.generators:
        self.expr(g.iter, inner)
        self.target(g.target, inner)
        for c in g.ifs:
          self.expr(c, inner)
      if isinstance(e, ast.DictComp):
        self.expr(e.key, inner)
        self.expr(e.value, inner)
      else:
        self.expr(e.elt, inner)
      return
    if isinstance(e, ast.NamedExpr):
      self.expr(e.value, env)
      self.target(e.target, env)
      return
    for c in ast.iter_child_nodes(e):
      self.expr(c, env)

  @staticmethod
  def join(a, b):
    if a is None:
      return b
    if b is None:
      return a
    out = dict(a)
    for k, v in b.items():
      out[k] = out[k] | v if k in out else v
    return out

  def block(self, stmts, env):
    for s in stmts:
      if env is None:
        env = {}        # dead code: keep going
      env = self.stmt(s, env)
    return env

  def stmt(self, s, env):
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
      for d in s.decorator_list:
        self.expr(d, env)
      if isinstance(s, ast.FunctionDef):
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
          self.expr(d, env)
      env = dict(env)
      env[s.name] = self.bind(s.name, s)
      return env
    if isinstance(s, ast.Assign):
      self.expr(s.value, env)
      env = dict(env)
      for t in s.targets:
        self.target(t, env)
      return env
    if isinstance(s, ast.AnnAssign):
      self.expr(s.value, env)
      env = dict(env)
      if s.value is not None:
        self.target(s.target, env)
      return env
    if isinstance(s, ast.AugAssign):
      self.expr(s.value, env)
      env = dict(env)
      if isinstance(s.target, ast.Name):
        if s.target.id in env:
          self.u.loads[id(s.target)] = env[s.target.id]
        env[s.target.id] = self.bind(s.target.id, s.target) | env.get(s.target.id, frozenset())
      else:
        self.target(s.target, env)
      return env
    if isinstance(s, ast.If):
      self.expr(s.test, env)
      a = self.block(s.body, self.narrow(s.test, True, dict(env)))
      b = self.block(s.orelse, self.narrow(s.test, False, dict(env)))
      return self.join(a, b)
    if isinstance(s, (ast.For, ast.While)):
      if isinstance(s, ast.For):
        self.expr(s.iter, env)
      cur = dict(env)
      for _ in range(3):
        e = dict(cur)
        if isinstance(s, ast.For):
          self.target(s.target, e)
        else:
          self.expr(s.test, e)
        saved = self.u.loads
        self.loops = getattr(self, "loops", [])
        self.loops.append([])
        out = self.block(s.body, e)
        for c in self.loops.pop():
          out = self.join(out, c)
        new = self.join(cur, out)
        if new == cur:
          break
        cur = new
      out = self.block(s.orelse, dict(cur))
      return self.join(cur, out)
    if isinstance(s, ast.Try):
      pre = dict(env)
      body = self.block(s.body, dict(env))
      mid = self.join(pre, body)
      # any binding of the body may be visible to a handler
      for n in s.body:
        for x in ast.walk(n):
          if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            k = frozenset([(self.u.qual, x.id, x.lineno, x.col_offset)])
            mid[x.id] = mid.get(x.id, frozenset()) | k
      out = self.block(s.orelse, body if body is not None else None) if body is not None else None
      for h in s.handlers:
        e = dict(mid)
        self.expr(h.type, e)
        if h.name:
          e[h.name] = self.bind(h.name, h)
        out = self.join(out, self.block(h.body, e))
      if s.finalbody:
        out = self.block(s.finalbody, self.join(dict(mid), out))
      return out
    if isinstance(s, ast.With):
      env = dict(env)
      for i in s.items:
        self.expr(i.context_expr, env)
        if i.optional_vars is not None:
          self.target(i.optional_vars, env)
      return self.block(s.body, env)
    if isinstance(s, (ast.Return, ast.Raise)):
      for c in ast.iter_child_nodes(s):
        self.expr(c, env)
      return None
    if isinstance(s, (ast.Break, ast.Continue)):
      if getattr(self, "loops", None):
        self.loops[-1].append(env)
      return None
    if isinstance(s, (ast.Import, ast.ImportFrom)):
      for a in s.names:
        if isinstance(s, ast.Import):
          self.u.imports[a.asname or a.name.split(".")[0]] = (
              a.name if a.asname else a.name.split(".")[0], None)
        else:
          self.u.imports[a.asname or a.name] = (self.u.mod._abs(s), a.name)
      return env
    if isinstance(s, ast.Global):
      self.u.globals |= set(s.names)
      return env
    if isinstance(s, ast.Nonlocal):
      self.u.nonlocals |= set(s.names)
      return env
    for c in ast.iter_child_nodes(s):
      self.expr(c, env)
    return env


def bits(m):
  while m:
    b = m & -m
    yield b.bit_length() - 1
    m ^= b


class Alias:

  def __init__(self, model):
    self.model = model
    self.sites = []
    self.siteof = {}
    self.V = {}         # binding key / ("ret", unit) / ("glob", mod, name) / ("cattr", klass, name) -> mask
    self.C = {}         # site -> mask of its elements
    self.F = {}         # (site, attr) -> mask
    self.units = {}     # id(node) -> Unit
    self.changed = True
    self.mutations = {}     # (unit, node id) -> (unit, node, what, mask)
    self.calls = {}         # unit -> set of units
    self.binders = {}
    self.narrows = {}
    self.typevals = {}
    self.K = {}         # dict literal with constant keys: key -> mask
    self.open = set()   # dicts which got elements in other ways
    self.by_method = {}
    for k in model.classes.values():
      for nm, fi in k.members.items():
        if isinstance(fi, FunctionInfo):
          self.by_method.setdefault(nm, []).append((k, fi))
    self.by_function = {}
    for q, fi in model.functions.items():
      if fi.klass is None:
        self.by_function.setdefault(q.rsplit(".", 1)[-1], []).append(fi)
    for m in model.modules.values():
      self.add_unit(m.tree, m, m.name, None, None)
    for u in list(self.units.values()):
      Reach(u, self).run()
    self.solve()

  # -------------------------------------------------------------- set up

  def add_unit(self, node, mod, qual, outer, klass):
    u = Unit(node, mod, qual, outer, klass)
    self.units[id(node)] = u
    for n in own(node):
      if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        k = klass if isinstance(node, ast.ClassDef) else None
        self.add_unit(n, mod, qual + "." + (n.name if isinstance(n, ast.FunctionDef) else
                                            "lambda@%d:%d" % (n.lineno, n.col_offset)), u, k)
      elif isinstance(n, ast.ClassDef):
        kk = self.model.classes.get(qual + "." + n.name)
        self.add_unit(n, mod, qual + "." + n.name, u, kk)
    # defaults are evaluated by the outer unit; lambdas inside them were missed
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
      for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
        for n in ast.walk(d):
          if isinstance(n, ast.Lambda) and id(n) not in self.units:
            self.add_unit(n, mod, qual + ".lambda@%d" % n.lineno, u.outer, None)
    return u

  def site(self, key, kind, where, desc, persistent, klass=None):
    i = self.siteof.get(key)
    if i is None:
      i = len(self.sites)
      self.siteof[key] = i
      self.sites.append(Site(i, kind, where, desc, persistent, klass))
      self.changed = True
    return i

  def alloc(self, u, node, kind, desc=None, persistent=None):
    i = self.site(("alloc", id(node), kind), kind, "%s:%d" % (u.mod.relpath, node.lineno),
                  desc or "%s in %s" % (kind, u.qual), u.top if persistent is None else persistent)
    self.sites[i].node = node
    return 1 << i

  # -------------------------------------------------------------- solving

  def add(self, key, mask):
    if not mask:
      return
    old = self.V.get(key, 0)
    if mask | old != old:
      self.V[key] = old | mask
      self.changed = True

  def addC(self, sites, mask, keyed=False):
    if not mask:
      return
    for s in bits(sites):
      if not keyed and s not in self.open:
        self.open.add(s)
        self.changed = True
      old = self.C.get(s, 0)
      if mask | old != old:
        self.C[s] = old | mask
        self.changed = True

  def addK(self, sites, key, mask):
    """The element with a constant key or index."""
    for s in bits(sites):
      d = self.K.setdefault(s, {})
      if key not in d or mask | d[key] != d[key]:
        d[key] = d.get(key, 0) | mask
        self.changed = True
    self.addC(sites, mask, True)

  def item(self, mask, key):
    out = 0
    for s in bits(mask):
      if s in self.K and s not in self.open:
        out |= self.K[s].get(key, 0)
      else:
        out |= self.C.get(s, 0)
    return out

  def copied(self, dst, src):
    """The elements of one dictionary are put into another."""
    for s in bits(src):
      if s in self.K and s not in self.open and self.sites[s].kind == "dict":
        for k, v in self.K[s].items():
          self.addK(dst, k, v)
      else:
        self.addC(dst, self.C.get(s, 0))

  def addF(self, sites, attr, mask):
    if not mask:
      return
    for s in bits(sites):
      old = self.F.get((s, attr), 0)
      if mask | old != old:
        self.F[(s, attr)] = old | mask
        self.changed = True

  def elems(self, mask):
    out = 0
    for s in bits(mask):
      out |= self.C.get(s, 0)
    return out

  def solve(self):
    self.rounds = 0
    while self.changed and self.rounds < 60:
      self.changed = False
      self.rounds += 1
      for u in list(self.units.values()):
        self.u = u
        if isinstance(u.node, ast.Lambda):
          self.add(("ret", id(u.node)), self.ev(u.node.body))
        else:
          for s in u.node.body:
            self.stmt(s)
    self.rounds_left = self.changed

  def mutate(self, node, what, mask):
    if not mask:
      return
    key = (self.u.qual, node.lineno, node.col_offset, what)
    old = self.mutations.get(key)
    self.mutations[key] = (self.u, node, what, mask | (old[3] if old else 0))

  # statements

  def stmt(self, s):
    if isinstance(s, ast.FunctionDef):
      self.fundef(s)
      return
    if isinstance(s, ast.ClassDef):
      u = self.units[id(s)]
      self.calls.setdefault(self.u.qual, set()).add(u.qual)
      return
    if isinstance(s, ast.Assign):
      v = self.ev(s.value)
      for t in s.targets:
        self.assign(t, v, s)
      return
    if isinstance(s, ast.AnnAssign):
      if s.value is not None:
        self.assign(s.target, self.ev(s.value), s)
      return
    if isinstance(s, ast.AugAssign):
      v = self.ev(s.value)
      old = self.ev(s.target)
      lists = 0
      for b in bits(old):
        if self.sites[b].kind in ("list", "set", "dict", "?"):
          lists |= 1 << b
      if lists and (v or isinstance(s.value, (ast.List, ast.ListComp, ast.Set, ast.Dict))):
        self.addC(lists, self.elems(v))
        self.mutate(s, "augmented assignment", lists)
      self.assign(s.target, old | v, s)
      return
    if isinstance(s, (ast.For,)):
      it = self.ev(s.iter)
      self.consume(s.iter, it)
      self.assign(s.target, self.elems(it), s)
      self.block(s.body)
      self.block(s.orelse)
      return
    if isinstance(s, ast.While):
      self.ev(s.test)
      self.block(s.body)
      self.block(s.orelse)
      return
    if isinstance(s, ast.If):
      self.ev(s.test)
      self.block(s.body)
      self.block(s.orelse)
      return
    if isinstance(s, ast.Try):
      self.block(s.body)
      for h in s.handlers:
        self.block(h.body)
      self.block(s.orelse)
      self.block(s.finalbody)
      return
    if isinstance(s, ast.With):
      for i in s.items:
        v = self.ev(i.context_expr)
        if i.optional_vars is not None:
          self.assign(i.optional_vars, v | self.elems(v), s)
      self.block(s.body)
      return
    if isinstance(s, ast.Return):
      if s.value is not None:
        self.add(("ret", id(self.u.node)), self.ev(s.value))
      return
    if isinstance(s, ast.Delete):
      for t in s.targets:
        if isinstance(t, ast.Subscript):
          self.mutate(t, "del", self.ev(t.value))
        elif isinstance(t, ast.Attribute):
          self.mutate(t, "del", self.ev(t.value))
      return
    for c in ast.iter_child_nodes(s):
      if isinstance(c, ast.expr):
        self.ev(c)

  def block(self, b):
    for s in b:
      self.stmt(s)

  def consume(self, node, mask):
    """Iterating over an iterator uses it up."""
    its = 0
    for b in bits(mask):
      if self.sites[b].iterator:
        its |= 1 << b
    if its:
      self.mutate(node, "iteration", its)

  def fundef(self, s):
    u = self.units[id(s)]
    f = 1 << self.fnsite(u)
    # defaults
    a = s.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
        (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
      self.add((u.qual, p.arg, p.lineno, p.col_offset), self.ev(d))
    for d in s.decorator_list:
      v = self.ev(d.func if isinstance(d, ast.Call) else d)
      # decorators of the repository get the function
      for b in bits(v):
        t = self.sites[b].fn
        if t is not None and isinstance(t.node, ast.FunctionDef):
          self.invoke(t, [f], {}, d)
    # self
    if self.u.klass is not None and isinstance(self.u.node, ast.ClassDef):
      info = self.u.klass.members.get(s.name)
      if isinstance(info, FunctionInfo) and pos and not info.is_static:
        p = pos[0]
        key = (u.qual, p.arg, p.lineno, p.col_offset)
        if info.is_classmethod or s.name == "__new__":
          self.add(key, self.classmask(self.u.klass))
        else:
          m = 0
          for k in self.model.classes.values():
            if k.issub(self.u.klass):
              m |= 1 << self.inst(k)
          self.add(key, m)
    if not (self.u.klass is not None and isinstance(self.u.node, ast.ClassDef)):
      self.add((self.u.qual, s.name, s.lineno, s.col_offset), f)
      if isinstance(self.u.node, ast.Module):
        self.add(("glob", self.u.mod.name, s.name), f)

  def fnsite(self, u):
    i = self.site(("fn", id(u.node)), "fn", "%s:%d" % (u.mod.relpath, u.node.lineno), u.qual, True)
    self.sites[i].fn = u
    return i

  def boundsite(self, info, recv):
    """A method taken off an object, to be called later."""
    u = self.units.get(id(info.node))
    if u is None:
      return 0
    if not recv:
      return 1 << self.fnsite(u)
    i = self.site(("bound", id(u.node), recv), "fn", "%s:%d" % (u.mod.relpath, u.node.lineno), u.qual, True)
    self.sites[i].fn = u
    self.sites[i].bound = recv
    return 1 << i

  def inst(self, k):
    return self.site(("inst", k.qual), "inst", k.mod.relpath, "instance of " + k.qual, False, k)

  def classmask(self, k):
    return 1 << self.site(("class", k.qual), "class", "%s:%d" % (k.mod.relpath, k.node.lineno),
                          "class " + k.qual, True, k)

  # assignment

  def assign(self, t, v, s):
    if isinstance(t, ast.Name):
      u = self.u
      if t.id in u.globals:
        self.add(("glob", u.mod.name, t.id), v)
        self.mutate(t, "global assignment", 1 << self.site(("globvar", u.mod.name, t.id), "glob",
                                                         u.mod.relpath, "global %s.%s" % (u.mod.name, t.id), True))
        return
      if t.id in u.nonlocals:
        o = u.outer
        while o is not None:
          if t.id in o.binds and not o.top:
            for b in o.binds[t.id]:
              self.add(b, v)
            break
          o = o.outer
        return
      self.add((u.qual, t.id, t.lineno, t.col_offset), v)
      if isinstance(u.node, ast.Module):
        self.add(("glob", u.mod.name, t.id), v)
      elif isinstance(u.node, ast.ClassDef) and u.klass is not None:
        self.add(("cattr", u.klass.qual, t.id), v)
      return
    if isinstance(t, (ast.Tuple, ast.List)):
      pairs = 0
      if len(t.elts) == 2:      # key and value of an item of a dictionary
        for b in bits(v):
          if self.sites[b].kind == "pair":
            pairs |= 1 << b
      for e in t.elts:
        if e is t.elts[0] and pairs and not isinstance(e, ast.Starred):
          self.assign(e, self.elems(v & ~pairs), s)
          continue
        if not any(isinstance(x, ast.Starred) for x in t.elts):
          self.assign(e, self.item(v, t.elts.index(e)), s)
          continue
        self.assign(e.value if isinstance(e, ast.Starred) else e,
                    self.elems(v) if not isinstance(e, ast.Starred) else v, s)
      return
    if isinstance(t, ast.Starred):
      self.assign(t.value, v, s)
      return
    if isinstance(t, ast.Subscript):
      b = self.ev(t.value)
      self.ev(t.slice)
      if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
        for x in bits(b):
          if self.sites[x].kind == "dict":
            self.addK(1 << x, t.slice.value, v)
          else:
            self.addC(1 << x, v)
      else:
        self.addC(b, v)
      self.mutate(t, "item assignment", b)
      return
    if isinstance(t, ast.Attribute):
      b = self.ev(t.value)
      ent = self.global_ent(t.value)
      if isinstance(ent, Klass):
        self.add(("cattr", ent.qual, t.attr), v)
        self.mutate(t, "class attribute assignment", self.classmask(ent))
        return
      if isinstance(ent, Module):
        self.add(("glob", ent.name, t.attr), v)
        self.mutate(t, "module attribute assignment", 1 << self.site(
            ("globvar", ent.name, t.attr), "glob", ent.relpath, "global %s.%s" % (ent.name, t.attr), True))
        return
      self.setattr(b, t.attr, v, t)

  def settable(self, b):
    """Built-in containers have no attributes that can be set."""
    out = 0
    for x in bits(b):
      if self.sites[x].kind not in ("list", "dict", "set", "tuple", "defaultdict", "deque", "view", "keys",
                                    "iter", "gen", "pair"):
        out |= 1 << x
    return out

  def setattr(self, b, attr, v, node):
    b = self.settable(b)
    for x in bits(b):
      st = self.sites[x]
      if st.kind == "class":
        self.add(("cattr", st.klass.qual, attr), v)
      if st.klass is not None and st.kind == "inst":
        hit = False
        for k in st.klass.mro():
          if isinstance(k, Klass):
            for d in bits(self.V.get(("cattr", k.qual, attr), 0)):
              g = self.sites[d].klass is not None and self.sites[d].kind == "inst" and \
                  self.sites[d].klass.lookup("__set__")[1]
              if isinstance(g, FunctionInfo):
                self.addF(1 << x, "descr:" + attr, v)
                hit = True
        if hit:
          continue
      self.addF(1 << x, attr, v)
    self.mutate(node, "attribute assignment", b)

  # expressions

  def global_ent(self, e):
    """Entity a module-level name or dotted name denotes, when it is not local."""
    r = e
    while isinstance(r, ast.Attribute):
      r = r.value
    if not isinstance(r, ast.Name) or self.lookup_local(r) is not None:
      # a local import
      return None
    if isinstance(e, ast.Name):
      return self.global_name(e.id)
    base = self.global_ent(e.value)
    return self.model.resolve_attr(base, e.attr) if base is not None else None

  def global_name(self, name):
    u = self.u
    while u is not None and not isinstance(u.node, ast.Module):
      if name in u.imports:
        base, attr = u.imports[name]
        if attr is not None:
          return self.model.resolve_from(base, attr)
        return self.model.modules.get(base, ("ext", base))
      u = u.outer
    r = self.model.resolve_name(self.u.mod, name)
    if r is None and name not in self.u.mod.bind:
      return ("ext", name)
    return r

  def lookup_local(self, n):
    """Binding keys of a name, None when it is global."""
    u = self.u
    if n.id in u.globals:
      return None
    if id(n) in u.loads and not isinstance(u.node, ast.Module):
      return u.loads[id(n)]
    if n.id in u.binds and not isinstance(u.node, ast.Module):
      return tuple(u.binds[n.id])
    o = u.outer
    while o is not None:
      if n.id in o.binds and not o.top:
        return tuple(o.binds[n.id])
      o = o.outer
    return None

  def ent_mask(self, ent):
    if isinstance(ent, Klass):
      return self.classmask(ent)
    if isinstance(ent, Module):
      i = self.site(("module", ent.name), "module", ent.relpath, "module " + ent.name, True)
      self.sites[i].mod = ent
      return 1 << i
    if isinstance(ent, FunctionInfo):
      if ent.is_classmethod:
        return self.boundsite(ent, self.classmask(ent.klass))
      u = self.units.get(id(ent.node))
      return 1 << self.fnsite(u) if u is not None else 0
    if isinstance(ent, tuple) and ent[0] == "var":
      return self.V.get(("glob", ent[1].name, ent[2]), 0)
    return 0

  def ev(self, e):
    if e is None or isinstance(e, ast.Constant):
      return 0
    m = getattr(self, "ev_" + type(e).__name__, None)
    if m is not None:
      return m(e)
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr):
        self.ev(c)
    return 0

  def ev_Name(self, e):
    keys = self.lookup_local(e)
    if keys is not None:
      m = 0
      for k in keys:
        m |= self.value(k)
      return m
    return self.ent_mask(self.global_name(e.id))

  def value(self, key):
    if not isinstance(key, Narrow):
      return self.V.get(key, 0)
    m = self.value(key.base)
    out = 0
    for b in bits(m):
      r = self.of_type(self.sites[b], key.types)
      if r is None or r == key.truth:
        out |= 1 << b
    return out

  def of_type(self, st, types):
    """Whether the object is an instance of the types; None when unknown."""
    if isinstance(types, (ast.Tuple, ast.List)):
      rs = [self.of_type(st, t) for t in types.elts]
      return True if True in rs else None if None in rs else False
    if isinstance(types, ast.BinOp):
      rs = [self.of_type(st, types.left), self.of_type(st, types.right)]
      return True if True in rs else None if None in rs else False
    ent = self.global_ent(types) if isinstance(types, (ast.Name, ast.Attribute)) else None
    if isinstance(types, ast.Name) and (ent is None or isinstance(ent, tuple) and ent[0] == "var"):
      # a name for a collection of types
      vals = self.typevals.get(id(types))
      nm = types.id if ent is None else ent[2]
      if vals is None:
        body = own(self.u.node) if ent is None else ast.walk(ent[1].tree)
        vals = self.typevals[id(types)] = [
            n.value for n in body if isinstance(n, ast.Assign)
            and any(isinstance(t, ast.Name) and t.id == nm for t in n.targets)]
      rs = {self.of_type(st, v) for v in vals if not (isinstance(v, ast.Name) and v.id == nm)}
      return rs.pop() if len(rs) == 1 else None
    if isinstance(ent, tuple) and ent[0] == "ext" and ent[1] in ("str", "int", "float", "bool", "bytes", "unicode",
                                                                 "basestring"):
      return False if st.kind in ("list", "dict", "set", "tuple", "defaultdict", "deque", "fn", "class", "module",
                                  "iter", "gen", "view", "keys", "pair") else None
    kinds = {"dict": ("dict", "defaultdict"), "list": ("list",), "set": ("set",), "tuple": ("tuple",)}
    if isinstance(ent, Klass):
      if st.kind == "inst":
        return True if st.klass.issub(ent) else None if ent.issub(st.klass) else False
      return False if st.kind in ("list", "dict", "set", "tuple", "defaultdict", "deque", "fn", "class", "module",
                                  "iter", "gen", "view", "keys") else None
    if isinstance(ent, tuple) and ent[0] == "ext" and ent[1] in kinds:
      if st.kind in kinds[ent[1]]:
        return True
      if st.kind == "inst":
        bases = {x for x in st.klass.mro() if isinstance(x, str)} - {"object"}
        if bases & set(kinds[ent[1]]):
          return True
        return False if bases <= {"dict", "list", "set", "tuple", "str", "int", "Exception", "enum.Enum"} else None
      return False if st.kind in ("list", "dict", "set", "tuple", "defaultdict", "deque", "fn", "class",
                                  "module") else None
    return None

  def ev_Attribute(self, e):
    ent = self.global_ent(e)
    if ent is not None and not (isinstance(ent, tuple) and ent[0] == "ext"):
      if not (isinstance(ent, FunctionInfo) and ent.klass is not None and
              isinstance(self.global_ent(e.value), tuple)):
        m = self.ent_mask(ent)
        if m or not isinstance(ent, tuple):
          return m
    b = self.ev(e.value)
    return self.load(b, e.attr, e)

  def load(self, b, attr, node=None):
    out = 0
    for x in bits(b):
      st = self.sites[x]
      if st.kind == "module":
        out |= self.ent_mask(self.model.resolve_attr(st.mod, attr))
        continue
      out |= self.F.get((x, attr), 0)
      if st.klass is not None:
        own_field = st.kind == "inst" and self.shadowed(st.klass, attr)
        k, mem = st.klass.lookup(attr)
        if isinstance(mem, FunctionInfo):
          if mem.is_property and st.kind != "class":
            u = self.units.get(id(mem.node))
            if u is not None:
              out |= self.invoke(u, [1 << x], {}, node)
          elif not mem.is_property:
            out |= self.boundsite(mem, 0 if mem.is_static else self.classmask(st.klass) if mem.is_classmethod
                                  else 1 << x if st.kind != "class" else 0)
          continue
        if not own_field:
          for k in st.klass.mro():
            if isinstance(k, Klass):
              v = self.V.get(("cattr", k.qual, attr), 0)
              for d in bits(v):
                if self.sites[d].kind == "prop":
                  i = self.sites[d].iterator
                  out |= self.C.get(x, 0) if i is False else self.item(1 << x, i - 1)
                  continue
                g = self.sites[d].klass is not None and self.sites[d].kind == "inst" and \
                    self.sites[d].klass.lookup("__get__")[1]
                if isinstance(g, FunctionInfo):
                  # a descriptor yields what was stored through it or what
                  # it was created from
                  out |= self.F.get((x, "descr:" + attr), 0) | self.F.get((x, "descr:*"), 0)
                  for y in bits(self.F.get((d, "$args"), 0)):
                    out |= 1 << (self.inst(self.sites[y].klass) if self.sites[y].kind == "class" else y)
                else:
                  out |= 1 << d
      elif st.kind not in ("inst", "class", "fn"):
        pass
    return out

  def has_descriptors(self, klass):
    for k in klass.mro():
      if isinstance(k, Klass):
        for nm in list(k.members):
          for d in bits(self.V.get(("cattr", k.qual, nm), 0)):
            s = self.sites[d]
            if s.kind == "inst" and s.klass is not None and s.klass.lookup("__set__")[1] is not None:
              return True
    return False

  def shadowed(self, klass, attr):
    """The constructor of the class sets the attribute."""
    key = (klass.qual, attr)
    r = self.binders.get(key)
    if r is None:
      r = False
      for k in klass.mro():
        if isinstance(k, Klass):
          init = k.members.get("__init__")
          if isinstance(init, FunctionInfo) and init.params:
            s = init.params[0]
            for st in init.node.body:
              for n in ([st] if isinstance(st, (ast.Assign, ast.AnnAssign)) else []):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                  for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and x.attr == attr and \
                        isinstance(x.value, ast.Name) and x.value.id == s:
                      r = True
      self.binders[key] = r
    return r

  def ev_Subscript(self, e):
    b = self.ev(e.value)
    self.ev(e.slice)
    if isinstance(e.slice, ast.Slice):
      m = self.alloc(self.u, e, "list")
      self.addC(m, self.elems(b))
      return m
    dd = 0
    for x in bits(b):
      if self.sites[x].kind == "defaultdict":
        dd |= 1 << x
    if dd and isinstance(e.ctx, ast.Load):
      self.mutate(e, "defaultdict lookup", dd)
    if isinstance(e.slice, ast.Constant):
      return self.item(b, e.slice.value)
    return self.elems(b)

  def ev_Slice(self, e):
    for c in (e.lower, e.upper, e.step):
      self.ev(c)
    return 0

  def seq(self, e, kind, elts):
    m = self.alloc(self.u, e, kind)
    for x in elts:
      if isinstance(x, ast.Starred):
        self.addC(m, self.elems(self.ev(x.value)))
      else:
        self.addC(m, self.ev(x))
    return m

  def ev_List(self, e):
    return self.seq(e, "list", e.elts)

  def ev_Set(self, e):
    return self.seq(e, "set", e.elts)

  def ev_Tuple(self, e):
    if not isinstance(e.ctx, ast.Load) or any(isinstance(x, ast.Starred) for x in e.elts):
      return self.seq(e, "tuple", e.elts)
    m = self.alloc(self.u, e, "tuple")
    for i, x in enumerate(e.elts):
      self.addK(m, i, self.ev(x))
    return m

  def ev_Dict(self, e):
    m = self.alloc(self.u, e, "dict")
    for k, v in zip(e.keys, e.values):
      if k is None:
        self.addC(m, self.elems(self.ev(v)))
      else:
        self.ev(k)
        x = self.ev(v)
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
          self.addK(m, k.value, x)
        else:
          self.addC(m, x)
    return m

  def comp(self, e, kind):
    for g in e.generators:
      it = self.ev(g.iter)
      self.consume(g.iter, it)
      self.assign(g.target, self.elems(it), e)
      for c in g.ifs:
        self.ev(c)
    m = self.alloc(self.u, e, kind)
    if isinstance(e, ast.DictComp):
      self.ev(e.key)
      self.addC(m, self.ev(e.value))
    else:
      self.addC(m, self.ev(e.elt))
    return m

  def ev_ListComp(self, e):
    return self.comp(e, "list")

  def ev_SetComp(self, e):
    return self.comp(e, "set")

  def ev_DictComp(self, e):
    return self.comp(e, "dict")

  def ev_GeneratorExp(self, e):
    m = self.comp(e, "gen")
    for b in bits(m):
      self.sites[b].iterator = True
    return m

  def ev_BoolOp(self, e):
    m = 0
    for v in e.values:
      m |= self.ev(v)
    return m

  def ev_IfExp(self, e):
    self.ev(e.test)
    return self.ev(e.body) | self.ev(e.orelse)

  def ev_BinOp(self, e):
    a, b = self.ev(e.left), self.ev(e.right)
    kinds = {self.sites[x].kind for x in bits(a | b)}
    if isinstance(e.op, (ast.Add, ast.Mult)) and kinds & {"list", "tuple"}:
      m = self.alloc(self.u, e, "list" if "list" in kinds else "tuple")
      self.addC(m, self.elems(a | b))
      return m
    if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and kinds & {"set", "keys"}:
      m = self.alloc(self.u, e, "set")
      self.addC(m, self.elems(a | b))
      return m
    if isinstance(e.op, ast.BitOr) and "dict" in kinds:
      m = self.alloc(self.u, e, "dict")
      self.addC(m, self.elems(a | b))
      return m
    return 0

  def ev_NamedExpr(self, e):
    v = self.ev(e.value)
    self.assign(e.target, v, e)
    return v

  def ev_Lambda(self, e):
    u = self.units[id(e)]
    a = e.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
      self.add((u.qual, p.arg, p.lineno, p.col_offset), self.ev(d))
    return 1 << self.fnsite(u)

  def ev_Yield(self, e):
    if e.value is not None:
      self.add(("yield", id(self.u.node)), self.ev(e.value))
    return 0

  def ev_YieldFrom(self, e):
    self.add(("yield", id(self.u.node)), self.elems(self.ev(e.value)))
    return 0

  def ev_Starred(self, e):
    return self.ev(e.value)

  def ev_Await(self, e):
    return self.ev(e.value)

  # calls

  def ev_Call(self, e):
    args = []
    star = 0
    for a in e.args:
      if isinstance(a, ast.Starred):
        star |= self.elems(self.ev(a.value))
      else:
        args.append(self.ev(a))
    kwargs = {}
    for k in e.keywords:
      if k.arg is None:
        for b in bits(self.ev(k.value)):
          if b in self.K and b not in self.open:      # a literal with constant keys
            for n, v in self.K[b].items():
              kwargs[n] = kwargs.get(n, 0) | v
          else:
            star |= self.elems(1 << b)
      else:
        kwargs[k.arg] = kwargs.get(k.arg, 0) | self.ev(k.value)
    every = star
    for a in args:
      every |= a
    for a in kwargs.values():
      every |= a
    f = e.func
    name = dotted(f)
    ent = self.global_ent(f) if name else None
    if isinstance(ent, Klass):
      return self.construct(ent, args, kwargs, star, e)
    if isinstance(ent, FunctionInfo) and (ent.klass is None or ent.is_classmethod or ent.is_static):
      u = self.units.get(id(ent.node))
      if u is not None:
        a = [self.classmask(ent.klass)] + args if ent.is_classmethod else args
        return self.called(u, a, kwargs, e, star)
    if isinstance(ent, tuple) and ent[0] == "ext":
      return self.external(ent[1], args, kwargs, star, every, e)
    if isinstance(f, ast.Name):
      out = 0
      for b in bits(self.ev(f)):
        out |= self.apply(b, args, kwargs, star, e)
      return out
    if isinstance(f, ast.Attribute):
      # super().m(...)
      if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
        return self.supercall(f.attr, args, kwargs, star, e)
      if isinstance(ent, FunctionInfo):     # Class.method(obj, ...)
        u = self.units.get(id(ent.node))
        return self.called(u, args, kwargs, e, star) if u is not None else 0
      recv = self.ev(f.value)
      return self.method(recv, f.attr, args, kwargs, star, every, e)
    out = 0
    for b in bits(self.ev(f)):
      out |= self.apply(b, args, kwargs, star, e)
    return out

  def supercall(self, attr, args, kwargs, star, e):
    u = self.u
    while u is not None and not (u.outer is not None and isinstance(u.outer.node, ast.ClassDef)):
      u = u.outer
    if u is None or u.outer.klass is None:
      return 0
    out = 0
    sm = 0
    pos = u.node.args.posonlyargs + u.node.args.args
    if pos:
      p = pos[0]
      sm = self.V.get((u.qual, p.arg, p.lineno, p.col_offset), 0)
    for k in self.model.classes.values():
      if k.issub(u.outer.klass):
        _, mem = k.lookup_after(u.outer.klass, attr)
        if isinstance(mem, FunctionInfo):
          t = self.units.get(id(mem.node))
          if t is not None:
            out |= self.called(t, [sm] + args, kwargs, e, star)
    return out

  def apply(self, b, args, kwargs, star, e):
    st = self.sites[b]
    if st.fn is not None:
      return self.called(st.fn, ([st.bound] if st.bound else []) + args, kwargs, e, star)
    if st.kind == "class":
      return self.construct(st.klass, args, kwargs, star, e)
    if st.kind == "inst":
      k, mem = st.klass.lookup("__call__")
      if isinstance(mem, FunctionInfo):
        t = self.units.get(id(mem.node))
        if t is not None:
          return self.called(t, [1 << b] + args, kwargs, e, star)
    return 0

  def called(self, u, args, kwargs, e, star=0):
    v = self.invoke(u, args, kwargs, e, star)
    if self.u.top and v:
      # the result of a call at import time is an object of its own
      out = 0
      for b in bits(v):
        st = self.sites[b]
        if st.persistent:
          out |= 1 << b
          continue
        i = self.site(("import-call", id(e), b), st.kind, "%s:%d" % (self.u.mod.relpath, e.lineno),
                      st.desc, True, st.klass)
        self.addC(1 << i, self.C.get(b, 0))
        for (s, a), m in list(self.F.items()):
          if s == b:
            self.addF(1 << i, a, m)
        out |= 1 << i
      return out
    return v

  def invoke(self, u, args, kwargs, e, star=0):
    self.calls.setdefault(self.u.qual, set()).add(u.qual)
    a = u.node.args
    pos = a.posonlyargs + a.args
    def key(p):
      return (u.qual, p.arg, p.lineno, p.col_offset)
    for i, v in enumerate(args):
      if i < len(pos):
        self.add(key(pos[i]), v)
      elif a.vararg is not None:
        m = 1 << self.site(("vararg", id(u.node)), "tuple", u.mod.relpath, "*%s of %s" % (a.vararg.arg, u.qual), False)
        self.addC(m, v)
        self.add(key(a.vararg), m)
    if star:
      for p in pos[len(args):]:
        self.add(key(p), star)
      if a.vararg is not None:
        m = 1 << self.site(("vararg", id(u.node)), "tuple", u.mod.relpath, "*args", False)
        self.addC(m, star)
        self.add(key(a.vararg), m)
    names = {p.arg: p for p in pos + a.kwonlyargs}
    for n, v in kwargs.items():
      if n in names:
        self.add(key(names[n]), v)
      elif a.kwarg is not None:
        m = 1 << self.site(("kwarg", id(u.node)), "dict", u.mod.relpath, "**%s of %s" % (a.kwarg.arg, u.qual), False)
        self.addK(m, n, v)
        self.add(key(a.kwarg), m)
    if a.kwarg is not None:
      m = 1 << self.site(("kwarg", id(u.node)), "dict", u.mod.relpath, "**%s of %s" % (a.kwarg.arg, u.qual), False)
      self.addC(m, star)
      self.add(key(a.kwarg), m)
    if u.is_gen:
      m = 1 << self.site(("gen", id(u.node)), "gen", u.mod.relpath, "generator " + u.qual, False)
      self.sites[m.bit_length() - 1].iterator = True
      self.addC(m, self.V.get(("yield", id(u.node)), 0))
      return m
    r = self.V.get(("ret", id(u.node)), 0)
    if any(d.rsplit(".", 1)[-1] in CACHES for d in self.decos(u)):
      # what a memoizing function returns is shared by all of its callers
      work = r
      seen = 0
      while work:
        seen |= work
        new = self.elems(work)
        for b in bits(work):
          if not self.sites[b].persistent:
            self.sites[b].persistent = True
            self.sites[b].memo = u
          if self.sites[b].kind == "inst":
            for (x, a_), m in self.F.items():
              if x == b:
                new |= m
        work = new & ~seen
    return r

  def decos(self, u):
    return [dotted(d.func if isinstance(d, ast.Call) else d) or "" for d in getattr(u.node, "decorator_list", [])]

  def construct(self, k, args, kwargs, star, e):
    if self.u.top:
      m = 1 << self.site(("inst@", id(e), k.qual), "inst", "%s:%d" % (self.u.mod.relpath, e.lineno),
                         "%s made by %s" % (k.qual, self.u.qual), True, k)
      every = star
      for v in args + list(kwargs.values()):
        every |= v
      self.addF(m, "$args", every)
    else:
      m = 1 << self.inst(k)
    kk, init = k.lookup("__init__")
    if isinstance(init, FunctionInfo):
      u = self.units.get(id(init.node))
      if u is not None:
        self.invoke(u, [m] + args, kwargs, e, star)
    elif isinstance(k.lookup("__new__")[1], FunctionInfo):
      u = self.units.get(id(k.lookup("__new__")[1].node))
      if u is not None:
        self.invoke(u, [self.classmask(k)] + args, kwargs, e, star)
    else:
      # containers derived from built-in types
      v = star
      for a in args:
        v |= self.elems(a)
      self.addC(m, v)
    return m

  def external(self, name, args, kwargs, star, every, e):
    short = name.split(".")[-1]
    if name == "setattr" and len(args) == 3:
      attr = e.args[1].value if isinstance(e.args[1], ast.Constant) else None
      if attr is not None:
        self.setattr(args[0], attr, args[2], e)
      else:
        self.mutate(e, "setattr", self.settable(args[0]))
        for b in bits(self.settable(args[0])):
          k = self.sites[b].klass
          # dynamic names denote declared descriptors where there are any;
          # elsewhere they are supplied by the user, and so is the value
          if k is not None and self.has_descriptors(k):
            self.addF(1 << b, "descr:*", args[2])
      return 0
    if name == "getattr" and len(args) >= 2:
      attr = e.args[1].value if isinstance(e.args[1], ast.Constant) else None
      out = args[2] if len(args) > 2 else 0
      if attr is not None:
        return out | self.load(args[0], attr, e)
      for b in bits(args[0]):
        for (s, a), m in list(self.F.items()):
          if s == b:
            out |= m
        k = self.sites[b].klass
        if k is not None:
          for kk in k.mro():
            if isinstance(kk, Klass):
              for nm in kk.members:
                out |= self.V.get(("cattr", kk.qual, nm), 0)
      return out
    if name == "next" and args:
      self.consume(e, args[0])
      self.mutate(e, "next", args[0])
      return self.elems(args[0]) | (args[1] if len(args) > 1 else 0)
    if name in ("copy.deepcopy",):
      return 0 if not args else self.deep(args[0], e)
    if name in DEFAULTDICTS:
      m = self.alloc(self.u, e, "defaultdict")
      for b in bits(args[0] if args else 0):
        self.addC(m, self.apply(b, [], {}, 0, e))
      if args and isinstance(e.args[0], ast.Name) and e.args[0].id in ("list", "dict", "set"):
        self.addC(m, self.alloc(self.u, e.args[0], e.args[0].id))
      return m
    if name in ("heapq.heappush", "random.shuffle", "heapq.heapify", "heapq.heappop", "bisect.insort"):
      self.mutate(e, name, args[0] if args else 0)
      return self.elems(every)
    if name in ("vars", "globals", "locals"):
      return 0
    if name in COPIES or short in ("chain", "islice"):
      kind = "set" if name in SETS else "dict" if "ict" in name or "Counter" in name else \
          "list" if name in ("list", "sorted", "copy.copy") else "deque" if "deque" in name else \
          "tuple" if name == "tuple" else "iter"
      for a in args:
        self.consume(e, a)
      m = self.alloc(self.u, e, kind)
      if kind == "iter" and name not in ("range",):
        for b in bits(m):
          self.sites[b].iterator = True
      if name == "dict" and len(args) == 1 and not star and all(
          self.sites[b].kind == "dict" for b in bits(args[0])):
        self.copied(m, args[0])
        for n, v in kwargs.items():
          self.addK(m, n, v)
        return m
      v = star
      for a in args:
        v |= self.elems(a)
      if name in ("zip", "enumerate"):
        t = self.alloc(self.u, e.func, "tuple")
        self.addC(t, v)
        v = t
      if name in ("map", "filter", "sorted", "max", "min"):
        for b in bits(every):
          if self.sites[b].fn is not None:
            r = self.apply(b, [self.elems(every)], {}, 0, e)
            if name == "map":
              v |= r
      self.addC(m, v)
      return m
    if name in ("max", "min", "sum", "functools.reduce"):
      for b in bits(every):
        if self.sites[b].fn is not None:
          self.apply(b, [self.elems(every)], {}, 0, e)
      return self.elems(every) | (every if len(args) > 1 else 0)
    if name in ("isinstance", "len", "any", "all", "str", "int", "repr", "print", "type", "hasattr",
                "float", "bool", "callable", "id", "ord", "chr", "issubclass"):
      for a in args:
        if name in ("any", "all"):
          self.consume(e, a)
      return 0
    if name == "collections.namedtuple":
      return 0
    # anything else may call the functions it is given
    for b in bits(every):
      if self.sites[b].fn is not None and short in ("partial", "register", "sub", "signal", "Thread", "submit"):
        self.apply(b, [], {}, 0, e)
    if name.startswith(("itertools.count", "itertools.cycle", "itertools.repeat")):
      m = self.alloc(self.u, e, "iter")
      for b in bits(m):
        self.sites[b].iterator = True
      return m
    if name == "property":
      m = self.alloc(self.u, e, "prop")
      g = e.args[0] if e.args else None
      if isinstance(g, ast.Call) and len(g.args) == 1 and isinstance(g.args[0], ast.Constant) and \
          self.global_ent(g.func) == ("ext", "operator.itemgetter") and isinstance(g.args[0].value, int):
        self.sites[m.bit_length() - 1].iterator = g.args[0].value + 1
      return m
    if name == "tuple.__new__" and len(args) == 2:
      for c in bits(args[0]):
        if self.sites[c].kind == "class":
          x = 1 << self.inst(self.sites[c].klass)
          for t in bits(args[1]):
            if t in self.K and t not in self.open:
              for k, v in self.K[t].items():
                self.addK(x, k, v)
            else:
              self.addC(x, self.C.get(t, 0))
      return 0
    m = self.alloc(self.u, e, "?" if short[:1].islower() else "obj", "result of %s" % name)
    if name.startswith(("os.", "inspect.is", "re.", "logging.", "json.", "yaml.", "io.", "sys.", "textwrap.",
                        "shutil.", "subprocess.", "time.", "hashlib.", "codecs.")):
      if name.startswith(("json.", "yaml.")):
        self.addC(m, m)       # nested collections
    elif short not in ("getLogger", "compile", "namedtuple", "format"):
      self.addC(m, self.elems(every))
    return m

  def deep(self, mask, e):
    out = 0
    for b in bits(mask):
      st = self.sites[b]
      i = self.site(("deepcopy", id(e), b), st.kind, "%s:%d" % (self.u.mod.relpath, e.lineno),
                    "copy of " + st.desc, self.u.top, st.klass)
      out |= 1 << i
    return out

  def method(self, recv, name, args, kwargs, star, every, e):
    out = 0
    known = False
    for b in bits(recv):
      st = self.sites[b]
      if st.kind == "module":
        known = True
        for x in bits(self.load(1 << b, name, e)):
          out |= self.apply(x, args, kwargs, star, e)
        continue
      if st.klass is not None:
        k, mem = st.klass.lookup(name)
        if isinstance(mem, FunctionInfo):
          known = True
          t = self.units.get(id(mem.node))
          if t is not None:
            if mem.is_static:
              a = args
            elif mem.is_classmethod:
              a = [self.classmask(st.klass)] + args
            elif st.kind == "class":
              a = args
            else:
              a = [1 << b] + args
            out |= self.called(t, a, kwargs, e, star)
          continue
        # an attribute holding something callable
        for x in bits(self.load(1 << b, name, e)):
          known = True
          out |= self.apply(x, args, kwargs, star, e)
        if st.kind == "inst":
          builtin = any(isinstance(x, str) and x not in ("object",) for x in st.klass.mro())
          if not builtin:
            continue
      if st.kind in ("fn", "class", "glob"):
        continue
      if st.kind in ("?", "obj") and st.desc.startswith("result of importlib"):
        continue
      known = True
      out |= self.builtin_method(1 << b, st, name, args, kwargs, star, every, e)
    if not known:
      # the receiver is unknown: whatever method has that name
      for mem in self.by_function.get(name, ()):
        t = self.units.get(id(mem.node))
        if t is not None and isinstance(e.func, ast.Attribute) and not (
            name in MUTATORS or name in ("get", "items", "keys", "values", "copy", "format", "join", "write")):
          out |= self.called(t, args, kwargs, e, star)
      for k, mem in self.by_method.get(name, ()):
        if name in MUTATORS or name in ("get", "items", "keys", "values", "copy", "format", "join", "write"):
          break
        t = self.units.get(id(mem.node))
        if t is not None:
          out |= self.called(t, ([0] if not mem.is_static else []) + args, kwargs, e, star)
    return out

  def builtin_method(self, b, st, name, args, kwargs, star, every, e):
    if name in MUTATORS and st.kind in ("list", "set", "dict", "defaultdict", "deque", "inst", "?", "obj"):
      if not (st.kind == "obj" and name in ("add", "update", "remove")):
        self.mutate(e, "." + name, b)
    if name in ADDERS:
      self.addC(b, every)
      return 0
    if name in MERGERS and name in ("extend", "update", "extendleft"):
      for a in args:
        self.consume(e, a)
        if st.kind == "dict":
          self.copied(b, a)
        else:
          self.addC(b, self.elems(a))
      self.addC(b, star)
      for n, v in kwargs.items():
        self.addK(b, n, v)
      return 0
    if name in ("insert", "setdefault", "__setitem__"):
      self.addC(b, args[1] if len(args) > 1 else 0)
      return self.elems(b) if name == "setdefault" else 0
    if name in ("pop", "popleft", "popitem", "get", "__getitem__"):
      return self.elems(b) | (args[1] if len(args) > 1 else 0)
    if name in ("items", "values", "keys", "iteritems", "itervalues"):
      m = self.alloc(self.u, e, "keys" if name == "keys" else "view")
      if name in ("items", "iteritems"):
        t = self.alloc(self.u, e.func, "pair")
        self.addC(t, self.elems(b))
        self.addC(m, t)
      elif name != "keys":
        self.addC(m, self.elems(b))
      return m
    if name in ("copy", "union", "difference", "intersection", "symmetric_difference"):
      kind = "set" if name != "copy" else st.kind
      m = self.alloc(self.u, e, kind)
      if kind == "dict":
        self.copied(m, b)
      else:
        self.addC(m, self.elems(b))
      for a in args:
        self.addC(m, self.elems(a))
      return m
    if name == "sort":
      for v in kwargs.values():
        for x in bits(v):
          if self.sites[x].fn is not None:
            self.apply(x, [self.elems(b)], {}, 0, e)
      return 0
    return 0

  # -------------------------------------------------------------- queries

  def reachable(self, roots):
    seen = set()
    work = list(roots)
    while work:
      q = work.pop()
      if q in seen:
        continue
      seen.add(q)
      work.extend(self.calls.get(q, ()))
    return seen
