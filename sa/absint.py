"""Path-sensitive abstract interpreter over Python source (ast).

States are sets of abstract paths.  Values are constants, enum members, heap
references, functions/classes of the program model, or symbolic unknowns whose
identity is structural (so that the same pure expression over the same operands
denotes the same unknown).  Nothing is executed: every branch whose condition is
not decided by the facts on the path is taken both ways, loops are iterated to a
fixpoint over canonicalised states, helper functions are analysed in place (so
extracting or inlining a helper does not change the verdict).
"""
import ast
import builtins as _bi
import os
import sys

from . import liveness
from .model import Klass, FunctionInfo, Module, dotted, version_branch, walk_own

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
  """The analysis met something it cannot model; the check gives no verdict."""


# ---------------------------------------------------------------- values

class Val:
  __slots__ = ("_h", "_iv")


def _mk(name, fields):
  ns = {"__slots__": tuple(fields)}

  def __init__(self, *a):
    for f, x in zip(fields, a):
      object.__setattr__(self, f, x)
    h = hash((name,) + a)
    object.__setattr__(self, "_h", h)

  def __hash__(self):
    return self._h

  def __eq__(self, other):
    if self is other:
      return True
    if type(self) is not type(other) or self._h != other._h:
      return False
    for f in fields:
      if getattr(self, f) != getattr(other, f):
        return False
    return True

  def __ne__(self, other):
    return not self.__eq__(other)

  def __repr__(self):
    return "%s(%s)" % (name, ", ".join(repr(getattr(self, f)) for f in fields))
  ns.update(__init__=__init__, __hash__=__hash__, __eq__=__eq__, __ne__=__ne__,
            __repr__=__repr__)
  return type(name, (Val,), ns)


_CBase = _mk("C", ["v", "t"])


class C(_CBase):
  __slots__ = ()

  def __init__(self, v):
    _CBase.__init__(self, v, type(v).__name__)

  def __repr__(self):
    return "C(%r)" % (self.v,)


E = _mk("E", ["cls", "name"])            # enum member
Tup = _mk("Tup", ["items"])              # immutable sequence


class NTup(Tup):
  """Instance of a collections.namedtuple type."""
  __slots__ = ("fields",)

  def __init__(self, items, fields):
    Tup.__init__(self, items)
    object.__setattr__(self, "fields", fields)


class Incomparable(Exception):
  pass


class OrderKey:
  """Orders constants and tuples of them the way Python does; refuses to
  compare anything symbolic."""
  __slots__ = ("v",)

  def __init__(self, v):
    self.v = v

  def __lt__(self, other):
    a, b = self.v, other.v
    if isinstance(a, C) and isinstance(b, C):
      try:
        return a.v < b.v
      except TypeError:
        raise Incomparable()
    if isinstance(a, Tup) and isinstance(b, Tup) and not any(
        isinstance(x, Many) for x in a.items + b.items):
      for x, y in zip(a.items, b.items):
        if x != y:
          return OrderKey(x) < OrderKey(y)
      return len(a.items) < len(b.items)
    raise Incomparable()


Ref = _mk("Ref", ["k"])                  # heap object, k = (site, n)
FnV = _mk("FnV", ["info", "clo"])        # function (closure frame id or None)
Bound = _mk("Bound", ["fn", "selfv"])
ClsV = _mk("ClsV", ["klass"])
ModV = _mk("ModV", ["mod"])
Ext = _mk("Ext", ["name"])
U = _mk("U", ["key"])                    # symbolic unknown
SuperV = _mk("SuperV", ["klass", "selfv"])
GenV = _mk("GenV", ["fn", "args", "kwargs", "site"])
BM = _mk("BM", ["base", "name"])         # builtin method of a value
Lam = _mk("Lam", ["node", "fid", "modname"])
Many = _mk("Many", ["v"])                # list item: zero or more of v
ExcV = _mk("ExcV", ["cls", "val"])       # exception object: class name, value

NONE = C(None)
TRUE = C(True)
FALSE = C(False)


class Sig:
  """Non-local outcome of an expression or statement."""
  __slots__ = ("kind", "val")

  def __init__(self, kind, val=None):
    self.kind = kind
    self.val = val

  def key(self):
    return (self.kind, self.val)

  def __repr__(self):
    return "Sig(%s,%r)" % (self.kind, self.val)


class Inst:
  __slots__ = ("klass", "attrs")
  tag = "I"

  def __init__(self, klass, attrs):
    self.klass = klass
    self.attrs = attrs

  def key(self):
    return ("I", self.klass.qual if isinstance(self.klass, Klass) else self.klass,
            frozenset(self.attrs.items()))

  def values(self):
    return [self.attrs[k] for k in sorted(self.attrs)]

  def map(self, f):
    return Inst(self.klass, {k: f(v) for k, v in self.attrs.items()})


class Lst:
  __slots__ = ("items", "meta")
  tag = "L"

  def __init__(self, items, meta=None):
    self.items = tuple(items)
    self.meta = meta

  def key(self):
    return ("L", self.items, self.meta)

  def values(self):
    return list(self.items)

  def map(self, f):
    return Lst([f(v) for v in self.items], self.meta)


class Dct:
  __slots__ = ("items", "open")
  tag = "D"

  def __init__(self, items, open_=False):
    self.items = dict(items)
    self.open = open_

  def key(self):
    return ("D", frozenset(self.items.items()), self.open)

  def values(self):
    out = []
    for k, v in self.items.items():
      out.append(k)
      out.append(v)
    return out

  def map(self, f):
    return Dct({f(k): f(v) for k, v in self.items.items()}, self.open)


# ---------------------------------------------------------------- state

class State:
  __slots__ = ("frames", "cur", "heap", "truth", "dom", "uattr", "ctr", "p",
               "trace", "exc", "tryd", "depth", "stack")

  def __init__(self):
    self.frames = {}
    self.cur = None
    self.heap = {}
    self.truth = {}
    self.dom = {}
    self.uattr = {}
    self.ctr = {}
    self.p = None
    self.trace = None
    self.exc = None
    self.tryd = 0
    self.depth = 0
    self.stack = ()

  def copy(self):
    s = State.__new__(State)
    s.frames = {k: dict(v) for k, v in self.frames.items()}
    s.cur = self.cur
    s.heap = dict(self.heap)
    s.truth = dict(self.truth)
    s.dom = dict(self.dom)
    s.uattr = dict(self.uattr)
    s.ctr = dict(self.ctr)
    s.p = self.p.copy() if self.p is not None else None
    s.trace = self.trace
    s.exc = self.exc
    s.tryd = self.tryd
    s.depth = self.depth
    s.stack = self.stack
    return s

  @property
  def env(self):
    return self.frames[self.cur]

  def note(self, where, msg):
    self.trace = (self.trace, where, msg)

  def path(self, n=14):
    out = []
    t = self.trace
    while t is not None and len(out) < n:
      out.append("%s %s" % (t[1], t[2]))
      t = t[0]
    return out[::-1]

  def corekey(self):
    return (self.cur,
            frozenset((fid, frozenset(e.items())) for fid, e in self.frames.items()),
            frozenset((r, o.key()) for r, o in self.heap.items()),
            frozenset(self.uattr.items()),
            self.p.key() if self.p is not None else None,
            self.exc, self.tryd)

  def factkey(self):
    return (frozenset(self.truth.items()), frozenset(self.dom.items()))

  def join_facts(self, other):
    """Keep only what both paths agree on.  Returns True if self changed."""
    ch = False
    for k in list(self.truth):
      if other.truth.get(k) != self.truth[k]:
        del self.truth[k]
        ch = True
    for k in list(self.dom):
      o = other.dom.get(k)
      if o is None:
        del self.dom[k]
        ch = True
      elif o != self.dom[k]:
        j = dom_join(self.dom[k], o)
        if j is None:
          del self.dom[k]
          ch = True
        elif j != self.dom[k]:
          self.dom[k] = j
          ch = True
    return ch


def dom_join(a, b):
  if a[0] == "in" and b[0] == "in":
    return ("in", a[1] | b[1])
  if a[0] == "out" and b[0] == "out":
    r = a[1] & b[1]
    return ("out", r) if r else None
  if a[0] == "in":
    a, b = b, a
  r = a[1] - b[1]
  return ("out", r) if r else None


def dom_meet_in(d, s):
  if d is None:
    return ("in", s)
  if d[0] == "in":
    return ("in", d[1] & s)
  return ("in", s - d[1])


def dom_meet_out(d, s):
  if d is None:
    return ("out", s)
  if d[0] == "in":
    return ("in", d[1] - s)
  return ("out", d[1] | s)


PURE_METHODS = {
    "upper", "lower", "strip", "lstrip", "rstrip", "startswith", "endswith",
    "split", "rsplit", "splitlines", "format", "join", "replace", "find",
    "rfind", "count", "index", "isspace", "isdigit", "isupper", "islower",
    "encode", "decode", "title", "partition", "rpartition", "get", "keys",
    "values", "items", "match", "search", "fullmatch", "group", "groups",
    "groupdict", "start", "end", "span", "finditer", "findall", "sub",
    "is_alpha", "isalpha", "isalnum", "zfill", "ljust", "rjust", "capitalize",
    "casefold", "expandtabs",
}


def positive(v):
  """A counter which has been counted up from a positive number, however often."""
  return isinstance(v, U) and (v.key[0] == "widen" and v.key[-1] == "pos" and len(v.key) == 4 or
                               v.key[0] == "bin" and v.key[1] == "Add" and positive(v.key[2])
                               and isinstance(v.key[3], C) and isinstance(v.key[3].v, int) and v.key[3].v > 0)


# symbolic values that are texts or numbers, whatever they are
NEVER_NONE = {"content", "fstr", "join", "len", "bytes"}
STR_RESULT = {
    "strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "replace",
    "format", "join", "split", "rsplit", "splitlines", "expandtabs", "casefold",
    "startswith", "endswith", "zfill", "ljust", "rjust", "partition", "rpartition",
}

PURE_BUILTINS = {
    "len", "isinstance", "issubclass", "hasattr", "getattr", "type", "repr",
    "str", "int", "float", "bool", "tuple", "max", "min", "sum", "abs", "any",
    "all", "ord", "chr", "id", "callable", "round", "hash", "range",
    "frozenset", "bytes", "divmod",
}


def exc_bases(model, name):
  """Names of all base classes of exception class `name` (including itself)."""
  if name == "?":
    return {"?"}
  out = {name}
  if name in model.classes:
    for k in model.classes[name].mro():
      if isinstance(k, Klass):
        out.add(k.qual)
      else:
        out |= exc_bases(model, k)
    return out
  short = name.split(".")[-1]
  c = getattr(_bi, short, None)
  if isinstance(c, type) and issubclass(c, BaseException):
    for b in c.__mro__:
      out.add(b.__name__)
  elif "." in name:
    out |= {"Exception", "BaseException"}
  return out


def find_cycle(edges):
  """edges: id -> {id: state}; a state on some cycle, or None."""
  color = {}
  for root in edges:
    if root in color:
      continue
    stack = [(root, iter(edges.get(root, {}).items()))]
    color[root] = 1
    while stack:
      n, it = stack[-1]
      for m, st in it:
        c = color.get(m)
        if c == 1:
          return st
        if c is None:
          color[m] = 1
          stack.append((m, iter(edges.get(m, {}).items())))
          break
      else:
        color[n] = 2
        stack.pop()
  return None


class Plugin:
  """Default hooks: model nothing special."""

  # activations of one function allowed on the stack before its result is unknown
  MAXREC = 2
  # the inputs are finite and fully known: run loops to their end instead of
  # generalising over their rounds
  CONCRETE = False

  def __init__(self):
    self.interp = None

  def initial(self):
    return PState()

  def domain(self, st, u):
    return None

  def on_call(self, st, f, args, kwargs, node):
    return None

  def on_method(self, st, base, name, args, kwargs, node):
    return None

  def on_attr(self, st, base, name, node):
    return None

  def on_setattr(self, st, base, name, val, node):
    return None

  def on_subscript(self, st, base, idx, node):
    return None

  def on_del_subscript(self, st, base, idx, node):
    return None

  def on_set_subscript(self, st, base, idx, val, node):
    return None

  def on_iter(self, st, val, node):
    return None

  def on_sort(self, st, items, kwargs, node):
    """The orders items may be sorted to: [(state, items)], or None."""
    return None

  def after_stmt(self, st):
    """Called behind every statement, before equal states are merged."""

  def on_star(self, st, val, node):
    return None

  def on_truth(self, st, val, node):
    return None

  def on_compare(self, st, op, a, b, node):
    return None

  def on_binop(self, st, op, a, b, node):
    return None

  def on_inline(self, st, info, args, kwargs, node):
    """Return results to replace inlining of a repo function, or None."""
    return None

  def on_unknown_call(self, st, f, args, kwargs, node):
    return None

  def on_enter(self, st, info):
    pass

  def on_return(self, st, info, sig):
    pass

  def on_loop_head(self, st, node):
    pass

  def on_back_edge(self, st, node, mark):
    pass

  def on_stuck(self, st, node):
    pass

  def on_loop_exit(self, st, node):
    pass

  def on_list_add(self, st, ref, vals, node):
    pass

  def on_with(self, st, val, node, body):
    return None

  def may_raise(self, st, f, node):
    return True

  def inline_ok(self, st, info, args, kwargs):
    return True


class PState:
  """Plugin part of a state."""
  __slots__ = ("d",)

  def __init__(self, d=None):
    self.d = d if d is not None else {}

  def copy(self):
    return type(self)(dict(self.d))

  def key(self):
    return frozenset(self.d.items())

  def roots(self):
    return [v for v in self.d.values() if isinstance(v, Val)]

  def subst(self, f):
    for k, v in list(self.d.items()):
      if isinstance(v, Val):
        self.d[k] = f(v)
      elif isinstance(v, tuple):
        self.d[k] = map_tuple(v, f)


def map_tuple(t, f):
  return tuple(f(x) if isinstance(x, Val) else map_tuple(x, f) if isinstance(x, tuple) else x
               for x in t)


def iter_vals(x):
  """All Val leaves nested inside value x (including x)."""
  try:
    return x._iv
  except AttributeError:
    pass
  if not isinstance(x, Val):
    if isinstance(x, tuple):
      return [y for z in x for y in iter_vals(z)]
    return ()
  out = [x]
  if isinstance(x, U):
    sub = (x.key,)
  elif isinstance(x, Tup):
    sub = x.items
  elif isinstance(x, (Bound, SuperV)):
    sub = (x.selfv,)
  elif isinstance(x, BM):
    sub = (x.base,)
  elif isinstance(x, GenV):
    sub = tuple(x.args) + tuple(y[1] for y in x.kwargs)
  elif isinstance(x, Many):
    sub = (x.v,)
  elif isinstance(x, ExcV):
    sub = (x.val,)
  else:
    sub = ()
  seen = {x}
  for y in sub:
    for z in iter_vals(y):
      if z not in seen:
        seen.add(z)
        out.append(z)
  out = tuple(out)
  object.__setattr__(x, "_iv", out)
  return out


def subst_val(v, m, memo):
  if v in m:
    return m[v]
  if isinstance(v, (C, E, FnV, ClsV, ModV, Ext, Ref, Lam)):
    return v
  r = memo.get(v)
  if r is not None:
    return r
  f = lambda x: subst_val(x, m, memo)
  if isinstance(v, U):
    r = U(map_tuple(v.key, f))
  elif isinstance(v, NTup):
    r = NTup(tuple(f(x) for x in v.items), v.fields)
  elif isinstance(v, Tup):
    r = Tup(tuple(f(x) for x in v.items))
  elif isinstance(v, Bound):
    r = Bound(v.fn, f(v.selfv))
  elif isinstance(v, BM):
    r = BM(f(v.base), v.name)
  elif isinstance(v, SuperV):
    r = SuperV(v.klass, f(v.selfv))
  elif isinstance(v, GenV):
    r = GenV(v.fn, tuple(f(x) for x in v.args), tuple((k, f(x)) for k, x in v.kwargs), v.site)
  elif isinstance(v, Many):
    r = Many(f(v.v))
  elif isinstance(v, ExcV):
    r = ExcV(v.cls, f(v.val) if isinstance(v.val, Val) else v.val)
  else:
    r = v
  memo[v] = r
  return r


class Interp:
  MAXDEPTH = 40
  MERGE_AT = 160
  MAXSTATES = 6000
  LOOP_VARIANTS = 24
  INT_WIDEN = 4

  def __init__(self, model, plugin):
    self.model = model
    self.plugin = plugin
    plugin.interp = self
    self.fn_seen = set()
    self.sites = 0
    self.globcache = {}
    self.gen_handlers = []
    self.steps = 0
    self.max_steps = 3000000

  # ------------------------------------------------------------ helpers

  def where(self, st, node):
    m = st.frames[st.cur].get("$mod") if st.cur is not None else None
    rel = m.mod.relpath if m is not None else "?"
    return "%s:%d" % (rel, getattr(node, "lineno", 0))

  def mod(self, st):
    return st.frames[st.cur]["$mod"].mod

  def site(self, st, node, extra=""):
    m = self.mod(st)
    return (m.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
            getattr(node, "end_col_offset", 0), extra)

  def fresh(self, st, site, kind="fresh"):
    n = st.ctr.get(site, 0)
    st.ctr[site] = n + 1
    return U((kind, site, n))

  def alloc(self, st, site, obj):
    s = ("ref",) + (site,)
    n = st.ctr.get(s, 0)
    st.ctr[s] = n + 1
    r = Ref((site, n))
    st.heap[r] = obj
    return r

  def new_frame(self, st):
    fid = 0
    while fid in st.frames:
      fid += 1
    return fid

  # ------------------------------------------------------------ canonical form

  def canon(self, st):
    """Garbage collect and rename fresh symbols so equal states compare equal."""
    if self.plugin.CONCRETE:
      # objects keep their identity between calls of a driver
      return st
    order = []
    seen = set()
    work = []

    def push(v):
      for x in iter_vals(v):
        if isinstance(x, Ref):
          if x not in seen:
            seen.add(x)
            order.append(x)
            work.append(x)
        elif isinstance(x, U) and x.key and x.key[0] == "fresh":
          if x not in seen:
            seen.add(x)
            order.append(x)
    for fid in sorted(st.frames):
      env = st.frames[fid]
      for name in sorted(env):
        push(env[name])
    if st.p is not None:
      for v in st.p.roots():
        push(v)
    if st.exc is not None:
      push(st.exc)
    i = 0
    while i < len(work):
      r = work[i]
      i += 1
      o = st.heap.get(r)
      if o is None:
        continue
      for v in o.values():
        push(v)
      # attributes overriding on unknowns are keyed by value; roots already
    changed = True
    while changed:
      changed = False
      for (base, name), v in list(st.uattr.items()):
        if self._alive(base, seen):
          before = len(order)
          push(v)
          while i < len(work):
            r = work[i]
            i += 1
            o = st.heap.get(r)
            if o is not None:
              for x in o.values():
                push(x)
          if len(order) != before:
            changed = True
    st.uattr = {k: v for k, v in st.uattr.items() if self._alive(k[0], seen)}
    st.heap = {r: o for r, o in st.heap.items() if r in seen}
    counts = {}
    m = {}
    for x in order:
      if isinstance(x, Ref):
        s = ("ref", x.k[0])
        n = counts.get(s, 0)
        counts[s] = n + 1
        if x.k[1] != n:
          m[x] = Ref((x.k[0], n))
      else:
        s = x.key[1]
        n = counts.get(s, 0)
        counts[s] = n + 1
        if x.key[2] != n:
          m[x] = U(("fresh", s, n))
    st.ctr = dict(counts)
    # drop dead facts
    st.truth = {k: v for k, v in st.truth.items() if self._alive(k, seen)}
    st.dom = {k: v for k, v in st.dom.items() if self._alive(k, seen)}
    if m:
      self.rename(st, m)
    return st

  def _alive(self, v, seen):
    for x in iter_vals(v):
      if isinstance(x, Ref) or (isinstance(x, U) and x.key and x.key[0] == "fresh"):
        if x not in seen:
          return False
    return True

  def rename(self, st, m):
    memo = {}
    f = lambda v: subst_val(v, m, memo)
    for fid, env in st.frames.items():
      st.frames[fid] = {k: f(v) for k, v in env.items()}
    st.heap = {f(r): o.map(f) for r, o in st.heap.items()}
    st.truth = {f(k): v for k, v in st.truth.items()}
    st.dom = {f(k): (v[0], frozenset(f(x) if isinstance(x, Val) else x for x in v[1]))
              for k, v in st.dom.items()}
    st.uattr = {(f(k[0]), k[1]): f(v) for k, v in st.uattr.items()}
    if st.exc is not None:
      st.exc = f(st.exc)
    if st.p is not None:
      st.p.subst(f)

  # ------------------------------------------------------------ merging

  def reduce(self, outs, limit=None):
    """outs: list of (state, sig or value). Deduplicate; join if too many."""
    limit = limit or self.MERGE_AT
    if len(outs) < 8:
      return outs
    seen = {}
    res = []
    for st, v in outs:
      vk = v.key() if isinstance(v, Sig) else v
      k = (vk, st.corekey(), st.factkey())
      if k in seen:
        continue
      seen[k] = True
      res.append((st, v))
    if len(res) <= limit:
      return res
    groups = {}
    order = []
    for st, v in res:
      vk = v.key() if isinstance(v, Sig) else v
      k = (vk, st.corekey())
      if k in groups:
        groups[k][0].join_facts(st)
      else:
        groups[k] = (st, v)
        order.append(k)
    res = [groups[k] for k in order]
    if len(res) > self.MAXSTATES:
      raise AnalysisError("state explosion (%d states)" % len(res))
    return res

  # ------------------------------------------------------------ facts

  def resolve(self, st, v):
    if isinstance(v, U):
      d = st.dom.get(v)
      if d is not None and d[0] == "in" and len(d[1]) == 1:
        return next(iter(d[1]))
    return v

  def get_dom(self, st, u):
    d = st.dom.get(u)
    if d is None:
      d = self.plugin.domain(st, u)
    return d

  def truth(self, st, v, node=None):
    """-> list of (state, bool)"""
    v = self.resolve(st, v)
    r = self.plugin.on_truth(st, v, node)
    if r is not None:
      return r
    if isinstance(v, C):
      return [(st, bool(v.v))]
    if isinstance(v, Tup):
      return [(st, bool(v.items))]
    if isinstance(v, (E, FnV, Bound, ClsV, ModV, Ext, SuperV, BM, Lam, GenV, ExcV)):
      return [(st, True)]
    if isinstance(v, Ref):
      o = st.heap.get(v)
      if isinstance(o, Lst):
        if any(not isinstance(x, Many) for x in o.items):
          return [(st, True)]
        if not o.items:
          return [(st, False)]
        return self.fork_fact(st, U(("nonempty", v)), node)
      if isinstance(o, Dct):
        if o.items:
          return [(st, True)]
        if not o.open:
          return [(st, False)]
        return self.fork_fact(st, U(("nonempty", v)), node)
      if isinstance(o, Inst) and isinstance(o.klass, Klass):
        for nm in ("__bool__", "__len__"):
          k, m = o.klass.lookup(nm)
          if isinstance(m, FunctionInfo):
            res = []
            for s2, r in self.call_fn(st, FnV(m, None), [v], {}, node):
              if isinstance(r, Sig):
                continue
              res.extend(self.truth(s2, r, node))
            return res
      return [(st, True)]
    if isinstance(v, U):
      if positive(v):
        return [(st, True)]
      if v.key[0] == "not":
        return [(s, not b) for s, b in self.truth(st, v.key[1], node)]
      if v.key[0] == "boolval":
        return self.truth(st, v.key[1], node)
      d = self.get_dom(st, v)
      if d is not None and d[0] == "in":
        ts = frozenset(x for x in d[1] if not (isinstance(x, C) and not x.v))
        fs = d[1] - ts
        if not fs:
          return [(st, True)]
        if not ts:
          return [(st, False)]
        s2 = st.copy()
        st.dom[v] = ("in", ts)
        s2.dom[v] = ("in", fs)
        self.note(st, node, "%s is true" % show(v))
        self.note(s2, node, "%s is false" % show(v))
        return [(st, True), (s2, False)]
      return self.fork_fact(st, v, node)
    return self.fork_fact(st, U(("truth", v)), node)

  def note(self, st, node, msg):
    if node is not None and hasattr(node, "lineno") and st.cur is not None:
      st.note(self.where(st, node), msg)

  def fork_fact(self, st, u, node=None):
    t = st.truth.get(u)
    if t is not None:
      return [(st, t)]
    s2 = st.copy()
    st.truth[u] = True
    s2.truth[u] = False
    # consistency with value domains
    d = s2.dom.get(u)
    if d is not None and d[0] == "out" and NONE in d[1] and False:
      pass
    st.dom.setdefault(u, ("out", frozenset([NONE])))
    if st.dom[u][0] == "out":
      st.dom[u] = ("out", st.dom[u][1] | {NONE, FALSE})
    self.note(st, node, "%s is true" % show(u))
    self.note(s2, node, "%s is false" % show(u))
    return [(st, True), (s2, False)]

  def restrict(self, st, u, s, positive):
    """Constrain unknown u to be (not) in value set s.  Returns False if
    infeasible."""
    d = self.get_dom(st, u)
    nd = dom_meet_in(d, s) if positive else dom_meet_out(d, s)
    if nd[0] == "in" and not nd[1]:
      return False
    st.dom[u] = nd
    t = st.truth.get(u)
    if t is not None and nd[0] == "in":
      vals = frozenset(x for x in nd[1] if self._ctruth(x) == t)
      if not vals:
        return False
      st.dom[u] = ("in", vals)
    return True

  def _ctruth(self, x):
    if isinstance(x, C):
      return bool(x.v)
    return True

  # ------------------------------------------------------------ equality

  def is_const(self, v):
    return isinstance(v, (C, E, ClsV, FnV, Ext, ModV)) or (
        isinstance(v, Tup) and all(self.is_const(x) for x in v.items))

  def equal(self, st, a, b, node, identity=False):
    """-> list of (state, bool)"""
    a = self.resolve(st, a)
    b = self.resolve(st, b)
    if a == b and not isinstance(a, Many):
      return [(st, True)]
    if isinstance(a, C) and isinstance(b, C):
      try:
        return [(st, a.v == b.v if not identity else (a.v == b.v))]
      except Exception:
        return [(st, False)]
    if self.is_const(a) and self.is_const(b):
      return [(st, False)]
    if isinstance(b, U) and not isinstance(a, U):
      a, b = b, a
    if positive(a) and isinstance(b, C) and isinstance(b.v, int) and b.v <= 0:
      return [(st, False)]
    if isinstance(a, U) and b == NONE and (
        a.key[0] in NEVER_NONE or (a.key[0] == "mcall" and a.key[2] in STR_RESULT)):
      return [(st, False)]
    if isinstance(a, U) and (isinstance(b, (C, E)) or (self.is_const(b) and not isinstance(b, Tup))):
      d = self.get_dom(st, a)
      s = frozenset([b])
      if d is not None:
        if d[0] == "in":
          if b not in d[1]:
            return [(st, False)]
          if d[1] == s:
            return [(st, True)]
        elif b in d[1]:
          return [(st, False)]
      if a in st.truth and isinstance(b, C) and bool(b.v) != st.truth[a]:
        return [(st, False)]
      s2 = st.copy()
      out = []
      if self.restrict(st, a, s, True):
        self.note(st, node, "%s == %s" % (show(a), show(b)))
        out.append((st, True))
      if self.restrict(s2, a, s, False):
        self.note(s2, node, "%s != %s" % (show(a), show(b)))
        out.append((s2, False))
      return out
    if isinstance(a, Ref) and isinstance(b, Ref):
      if identity:
        return [(st, False)]
      oa, ob = st.heap.get(a), st.heap.get(b)
      if isinstance(oa, Inst) and isinstance(ob, Inst):
        return [(st, False)]
    elif isinstance(a, Ref) or isinstance(b, Ref):
      r, o = (a, b) if isinstance(a, Ref) else (b, a)
      if isinstance(o, (C, E)) :
        ob = st.heap.get(r)
        if isinstance(ob, Lst) and isinstance(o, C):
          return [(st, False)]
        if isinstance(ob, Inst):
          return [(st, False)]
        return [(st, False)]
    ka, kb = sorted([a, b], key=lambda x: repr(x))
    return self.fork_fact(st, U(("eq", ka, kb)), node)

  def contains(self, st, x, coll, node):
    x = self.resolve(st, x)
    coll = self.resolve(st, coll)
    items = None
    if isinstance(coll, Tup):
      items = coll.items
    elif isinstance(coll, Ref):
      o = st.heap.get(coll)
      if isinstance(o, Lst):
        items = o.items
      elif isinstance(o, Dct) and not o.open:
        items = tuple(o.items)
    elif isinstance(coll, C) and isinstance(coll.v, str) and isinstance(x, C) \
        and isinstance(x.v, str):
      return [(st, x.v in coll.v)]
    elif isinstance(coll, C) and coll.v is None:
      return []
    if items is not None and not any(isinstance(i, Many) for i in items):
      if isinstance(x, U) and all(isinstance(i, (C, E)) for i in items):
        s = frozenset(items)
        d = self.get_dom(st, x)
        if not s:
          return [(st, False)]
        s2 = st.copy()
        out = []
        if self.restrict(st, x, s, True):
          out.append((st, True))
        if self.restrict(s2, x, s, False):
          out.append((s2, False))
        if len(out) == 2:
          self.note(st, node, "%s in {%s}" % (show(x), ",".join(sorted(show(i) for i in s))[:60]))
          self.note(s2, node, "%s not in {%s}" % (show(x), ",".join(sorted(show(i) for i in s))[:60]))
        return out
      # general: disjunction of equalities
      pend = [st]
      out = []
      for i in items:
        nxt = []
        for s in pend:
          for s3, b in self.equal(s, x, i, node):
            if b:
              out.append((s3, True))
            else:
              nxt.append(s3)
        pend = nxt
      out.extend((s, False) for s in pend)
      return out
    return self.fork_fact(st, U(("in", x, coll)), node)

  def compare(self, st, op, a, b, node):
    r = self.plugin.on_compare(st, op, a, b, node)
    if r is not None:
      return r
    if isinstance(op, (ast.Eq, ast.Is)):
      return self.equal(st, a, b, node, isinstance(op, ast.Is))
    if isinstance(op, (ast.NotEq, ast.IsNot)):
      return [(s, not t) for s, t in self.equal(st, a, b, node, isinstance(op, ast.IsNot))]
    if isinstance(op, ast.In):
      return self.contains(st, a, b, node)
    if isinstance(op, ast.NotIn):
      return [(s, not t) for s, t in self.contains(st, a, b, node)]
    a = self.resolve(st, a)
    b = self.resolve(st, b)
    if isinstance(a, C) and isinstance(b, C):
      try:
        v = {ast.Lt: lambda: a.v < b.v, ast.LtE: lambda: a.v <= b.v,
             ast.Gt: lambda: a.v > b.v, ast.GtE: lambda: a.v >= b.v}[type(op)]()
        return [(st, v)]
      except TypeError:
        return []
    neg = False
    if isinstance(op, ast.Gt):
      a, b = b, a
    elif isinstance(op, ast.LtE):
      a, b = b, a
      neg = True
    elif isinstance(op, ast.GtE):
      neg = True
    if a == b:
      return [(st, neg)]
    if positive(b) and isinstance(a, C) and isinstance(a.v, int) and a.v <= 0:
      return [(st, not neg)]
    if positive(a) and isinstance(b, C) and isinstance(b.v, int) and b.v <= 1:
      return [(st, neg)]
    return [(s, t != neg) for s, t in self.fork_fact(st, U(("lt", a, b)), node)]

  # ------------------------------------------------------------ expressions

  def ev(self, node, st):
    self.steps += 1
    if self.steps > self.max_steps:
      raise AnalysisError("step budget exceeded")
    m = getattr(self, "ev_" + type(node).__name__, None)
    if m is None:
      raise AnalysisError("unsupported expression %s at %s" % (
          type(node).__name__, self.where(st, node)))
    return m(node, st)

  def ev_list(self, nodes, st):
    """Evaluate expressions left to right -> list of (st, [vals] | Sig)."""
    acc = [(st, [])]
    for n in nodes:
      nxt = []
      for s, vals in acc:
        if isinstance(vals, Sig):
          nxt.append((s, vals))
          continue
        if n is None:
          nxt.append((s, vals + [None]))
          continue
        for s2, v in self.ev(n, s):
          if isinstance(v, Sig):
            nxt.append((s2, v))
          else:
            nxt.append((s2, vals + [v]))
      acc = nxt
    return acc

  def ev_Constant(self, node, st):
    return [(st, C(node.value))]

  def ev_JoinedStr(self, node, st):
    parts = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
    out = []
    for s, vals in self.ev_list(parts, st):
      if isinstance(vals, Sig):
        out.append((s, vals))
        continue
      fmt = tuple(v.value if isinstance(v, ast.Constant) else None for v in node.values)
      out.append((s, U(("fstr", fmt) + tuple(vals))))
    return out

  def ev_Name(self, node, st):
    return [(st, self.lookup(st, node.id, node))]

  def lookup(self, st, name, node=None):
    env = st.frames[st.cur]
    while True:
      if name in env:
        return env[name]
      clo = env.get("$clo")
      if clo is None:
        break
      env = st.frames.get(clo.v)
      if env is None:
        break
    return self.global_value(st, self.mod(st), name)

  def global_value(self, st, mod, name):
    key = (mod.name, name)
    if key in self.globcache:
      return self.globcache[key]
    ent = self.model.resolve_name(mod, name)
    v = self.ent_value(ent)
    if v is None:
      if ent is None:
        if hasattr(_bi, name):
          v = Ext(name)
        elif name in ("unicode", "__name__", "__file__", "__doc__", "basestring"):
          v = U(("glob", mod.name, name))
        else:
          v = U(("glob", mod.name, name))
      else:
        v = self.eval_global(ent[1], ent[2])
    self.globcache[key] = v
    return v

  def ent_value(self, ent):
    if isinstance(ent, Klass):
      return ClsV(ent)
    if isinstance(ent, FunctionInfo):
      return FnV(ent, None)
    if isinstance(ent, Module):
      return ModV(ent)
    if isinstance(ent, tuple) and ent[0] == "ext":
      return Ext(ent[1])
    return None

  def eval_global(self, mod, name):
    key = ("$g", mod.name, name)
    if key in self.globcache:
      return self.globcache[key]
    self.globcache[key] = U(("glob", mod.name, name))
    binds = [b for b in mod.bind.get(name, []) if b[0] == "assign"]
    v = U(("glob", mod.name, name))
    if len(binds) == 1 and len(mod.bind[name]) == 1 and isinstance(binds[0][1], ast.Assign) \
        and len(binds[0][1].targets) == 1 and isinstance(binds[0][1].targets[0], ast.Name):
      r = self.const_expr(mod, binds[0][1].value)
      if r is not None:
        v = r
    self.globcache[key] = v
    return v

  def const_expr(self, mod, node):
    """Constant-evaluate a module-level expression, or None."""
    if isinstance(node, ast.Constant):
      return C(node.value)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
      return C(-node.operand.value)
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
      items = []
      for e in node.elts:
        v = self.const_expr(mod, e)
        if v is None:
          return None
        items.append(v)
      return Tup(tuple(items))
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
      a = self.const_expr(mod, node.left)
      b = self.const_expr(mod, node.right)
      if isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items)
      if isinstance(a, C) and isinstance(b, C):
        try:
          return C(a.v + b.v)
        except Exception:
          return None
      return None
    if isinstance(node, ast.Name):
      v = self.global_value(None, mod, node.id)
      return v
    if isinstance(node, ast.Attribute):
      b = self.const_expr(mod, node.value)
      if isinstance(b, ModV):
        ent = self.model.resolve_attr(b.mod, node.attr)
        v = self.ent_value(ent)
        if v is None and isinstance(ent, tuple) and ent[0] == "var":
          v = self.eval_global(ent[1], ent[2])
        return v
      if isinstance(b, ClsV):
        return self.class_attr(b.klass, node.attr)
      if isinstance(b, Ext):
        return Ext(b.name + "." + node.attr)
      return None
    if isinstance(node, ast.Call):
      f = self.const_expr(mod, node.func)
      if isinstance(f, Ext) and f.name in ("tuple", "list", "frozenset", "set", "sorted") and len(node.args) == 1:
        a = self.const_expr(mod, node.args[0])
        return a if isinstance(a, Tup) else None
      if isinstance(f, Ext) and f.name in ("collections.namedtuple", "namedtuple") \
          and len(node.args) == 2 and not node.keywords:
        n, a = [self.const_expr(mod, x) for x in node.args]
        if isinstance(a, C) and isinstance(a.v, str):
          a = Tup(tuple(C(x) for x in a.v.replace(",", " ").split()))
        if isinstance(a, Tup) and all(isinstance(x, C) for x in a.items):
          return U(("nttype", n) + a.items)
      return None
    return None

  def class_attr(self, klass, name):
    k, m = klass.lookup(name)
    if m is None:
      return None
    if isinstance(m, FunctionInfo):
      return FnV(m, None)
    if klass.qual in self.model.enum_members and name in self.model.enum_members[klass.qual]:
      return E(klass.qual, name)
    v = self.const_expr(k.mod, m[1])
    return v if v is not None else U(("cattr", k.qual, name))

  def shared_attr(self, st, klass, name):
    """A class attribute; with fully known inputs a mutable one is an object
    which all instances share."""
    k, m = klass.lookup(name)
    node = m[1] if isinstance(m, tuple) else None
    if not self.plugin.CONCRETE or not (
        isinstance(node, (ast.List, ast.Dict, ast.Set))
        or isinstance(node, ast.Call) and self.site_of_mutable(k.mod, node)):
      return [(st, self.class_attr(klass, name))]
    tag = ("classattr", k.qual, name)
    for r in st.heap:
      if isinstance(r.k[0], tuple) and r.k[0] == tag:
        return [(st, r)]
    fid = self.new_frame(st)
    cur = st.cur
    st.frames[fid] = {"$mod": ModV(k.mod)}
    st.cur = fid
    out = []
    for s, v in self.ev(node, st):
      s.cur = cur
      del s.frames[fid]
      if isinstance(v, Ref):
        r = Ref((tag, 0))
        s.heap[r] = s.heap.pop(v)
        if s.p is not None and "defaults" in getattr(s.p, "d", {}):
          s.p.d["defaults"] = tuple((r if x == v else x, d) for x, d in s.p.d["defaults"])
        v = r
      out.append((s, v))
    return out

  def site_of_mutable(self, mod, node):
    f = self.model.resolve_expr(mod, node.func)
    name = f.name if isinstance(f, Ext) else None
    if name is None:
      name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", None)
    return name is not None and name.rsplit(".", 1)[-1] in (
        "set", "list", "dict", "defaultdict", "OrderedDict", "Counter")

  def ev_Attribute(self, node, st):
    out = []
    for s, b in self.ev(node.value, st):
      if isinstance(b, Sig):
        out.append((s, b))
      else:
        out.extend(self.get_attr(s, b, node.attr, node))
    return out

  def get_attr(self, st, b, name, node):
    b = self.resolve(st, b)
    r = self.plugin.on_attr(st, b, name, node)
    if r is not None:
      return r
    if isinstance(b, ModV):
      ent = self.model.resolve_attr(b.mod, name)
      v = self.ent_value(ent)
      if v is None and isinstance(ent, tuple) and ent[0] == "var":
        v = self.eval_global(ent[1], ent[2])
      if v is None:
        v = U(("glob", b.mod.name, name))
      return [(st, v)]
    if isinstance(b, Ext):
      return [(st, Ext(b.name + "." + name))]
    if isinstance(b, ClsV):
      if name in ("__name__", "__qualname__"):
        return [(st, C(b.klass.name))]
      if name == "__init__" or True:
        k, m = b.klass.lookup(name)
        if isinstance(m, FunctionInfo):
          if m.is_classmethod:
            return [(st, Bound(FnV(m, None), b))]
          return [(st, FnV(m, None))]
        if m is not None:
          return self.shared_attr(st, b.klass, name)
      return [(st, U(("cattr", b.klass.qual, name)))]
    if isinstance(b, NTup) and name in b.fields:
      return [(st, b.items[b.fields.index(name)])]
    if isinstance(b, E):
      if name == "name":
        return [(st, C(b.name))]
      return [(st, U(("attr", b, name)))]
    if isinstance(b, SuperV):
      sv = b.selfv
      cls = None
      if isinstance(sv, Ref) and isinstance(st.heap.get(sv), Inst):
        cls = st.heap[sv].klass
      elif isinstance(sv, ClsV):
        cls = sv.klass
      if not isinstance(cls, Klass):
        cls = b.klass
      k, m = cls.lookup_after(b.klass, name)
      if isinstance(m, FunctionInfo):
        return [(st, Bound(FnV(m, None), sv))]
      return [(st, U(("super", b.klass.qual, name)))]
    if isinstance(b, Ref):
      o = st.heap.get(b)
      if isinstance(o, Inst):
        if name in o.attrs:
          return [(st, o.attrs[name])]
        if isinstance(o.klass, Klass):
          if name == "__class__":
            return [(st, ClsV(o.klass))]
          k, m = o.klass.lookup(name)
          if isinstance(m, FunctionInfo):
            if m.is_property:
              return self.call_fn(st, FnV(m, None), [b], {}, node)
            if m.is_classmethod:
              return [(st, Bound(FnV(m, None), ClsV(o.klass)))]
            if m.is_static:
              return [(st, FnV(m, None))]
            return [(st, Bound(FnV(m, None), b))]
          if m is not None:
            return self.shared_attr(st, o.klass, name)
        return [(st, U(("attr", b, name)))]
      if isinstance(o, (Lst, Dct)):
        return [(st, BM(b, name))]
      return [(st, U(("attr", b, name)))]
    if isinstance(b, (C, Tup)):
      if isinstance(b, C) and b.v is None:
        return self.none_attr(st, name, node)
      return [(st, BM(b, name))]
    if isinstance(b, U):
      if (b, name) in st.uattr:
        return [(st, st.uattr[(b, name)])]
      return [(st, U(("attr", b, name)))]
    if isinstance(b, (FnV, Bound)):
      return [(st, U(("attr", b, name)))]
    return [(st, U(("attr", b, name)))]

  def none_attr(self, st, name, node):
    return [(st, Sig("raise", ExcV("AttributeError", NONE)))]

  def ev_Subscript(self, node, st):
    out = []
    for s, b in self.ev(node.value, st):
      if isinstance(b, Sig):
        out.append((s, b))
        continue
      for s2, i in self.ev_index(node.slice, s):
        if isinstance(i, Sig):
          out.append((s2, i))
        else:
          out.extend(self.subscript(s2, b, i, node))
    return out

  def ev_index(self, sl, st):
    if isinstance(sl, ast.Slice):
      out = []
      for s, vals in self.ev_list([sl.lower, sl.upper, sl.step], st):
        if isinstance(vals, Sig):
          out.append((s, vals))
        else:
          out.append((s, U(("slice",) + tuple(NONE if v is None else v for v in vals))))
      return out
    return self.ev(sl, st)

  def subscript(self, st, b, i, node):
    b = self.resolve(st, b)
    i = self.resolve(st, i)
    r = self.plugin.on_subscript(st, b, i, node)
    if r is not None:
      return r
    o = st.heap.get(b) if isinstance(b, Ref) else None
    items = None
    if isinstance(b, Tup):
      items = b.items
    elif isinstance(o, Lst):
      items = o.items
    if items is not None:
      if isinstance(i, C) and isinstance(i.v, int):
        if not any(isinstance(x, Many) for x in items):
          try:
            return [(st, items[i.v])]
          except IndexError:
            return [(st, Sig("raise", ExcV("IndexError", NONE)))]
        if i.v >= 0 and i.v < len(items) and not any(isinstance(x, Many) for x in items[:i.v + 1]):
          return [(st, items[i.v])]
        if i.v < 0 and -i.v <= len(items) and not any(isinstance(x, Many) for x in items[i.v:]):
          return [(st, items[i.v])]
        return [(st, self.fresh(st, self.site(st, node, "sub")))]
      if isinstance(i, U) and i.key[0] == "slice" and not any(isinstance(x, Many) for x in items):
        lo, hi, stp = i.key[1:]
        if all(isinstance(x, C) for x in (lo, hi, stp)):
          got = items[slice(lo.v, hi.v, stp.v)]
          if isinstance(b, Tup):
            return [(st, Tup(got))]
          return [(st, self.alloc(st, self.site(st, node, "slice"), Lst(got)))]
      if isinstance(i, U) and i.key[0] == "slice":
        lo, hi, stp = i.key[1:]
        rep = items[::-1] if stp == C(-1) and lo == NONE and hi == NONE else \
            [x if isinstance(x, Many) else Many(x) for x in items]
        if isinstance(b, Tup):
          return [(st, Tup(tuple(rep)))]
        return [(st, self.alloc(st, self.site(st, node, "slice"), Lst(rep)))]
      # unknown index
      if len(items) and all(x == items[0] for x in items):
        v = items[0].v if isinstance(items[0], Many) else items[0]
        return [(st, v)]
      return [(st, U(("sub", b, i)))]
    if isinstance(o, Dct):
      if i in o.items:
        return [(st, o.items[i])]
      if not o.open and self.is_const(i) and all(self.is_const(k) for k in o.items):
        return [(st, Sig("raise", ExcV("KeyError", NONE)))]
      if not o.open and isinstance(i, U) and all(self.is_const(k) for k in o.items):
        out = []
        ks = list(o.items)
        for k in ks:
          s2 = st.copy()
          if self.restrict(s2, i, frozenset([k]), True):
            out.append((s2, o.items[k]))
        return out or [(st, Sig("raise", ExcV("KeyError", NONE)))]
      return [(st, U(("sub", b, i)))]
    if isinstance(b, C) and isinstance(b.v, str) and isinstance(i, U) and i.key[0] == "slice" \
        and all(isinstance(x, C) for x in i.key[1:]):
      return [(st, C(b.v[slice(*[x.v for x in i.key[1:]])]))]
    if isinstance(b, C) and isinstance(i, C):
      try:
        return [(st, C(b.v[i.v]))]
      except Exception:
        return [(st, Sig("raise", ExcV("IndexError", NONE)))]
    return [(st, U(("sub", b, i)))]

  def ev_Slice(self, node, st):
    return self.ev_index(node, st)

  def ev_Tuple(self, node, st):
    return self._ev_seq(node, st, "tuple")

  def ev_List(self, node, st):
    return self._ev_seq(node, st, "list")

  def ev_Set(self, node, st):
    return self._ev_seq(node, st, "list")

  def _ev_seq(self, node, st, kind):
    out = []
    acc = [(st, [])]
    for n in node.elts:
      nxt = []
      star = isinstance(n, ast.Starred)
      for s, vals in acc:
        if isinstance(vals, Sig):
          nxt.append((s, vals))
          continue
        for s2, v in self.ev(n.value if star else n, s):
          if isinstance(v, Sig):
            nxt.append((s2, v))
          elif star:
            nxt.append((s2, vals + self.expand(s2, v)))
          else:
            nxt.append((s2, vals + [v]))
      acc = nxt
    for s, vals in acc:
      if isinstance(vals, Sig):
        out.append((s, vals))
      elif kind == "tuple":
        out.append((s, Tup(tuple(vals))))
      else:
        r = self.alloc(s, self.site(s, node, "list"), Lst(()))
        if vals:
          s.heap[r] = Lst(vals)
          self.plugin.on_list_add(s, r, vals, node)
        out.append((s, r))
    return out

  def expand(self, st, v):
    v = self.resolve(st, v)
    if isinstance(v, Tup):
      return list(v.items)
    if isinstance(v, Ref):
      o = st.heap.get(v)
      if isinstance(o, Lst):
        return list(o.items)
      if isinstance(o, Dct) and not o.open:
        return list(o.items)
    if isinstance(v, C) and isinstance(v.v, str) and len(v.v) < 64:
      return [C(ch) for ch in v.v]
    return [Many(U(("elem", v)))]

  def ev_Dict(self, node, st):
    out = []
    ks = [k for k in node.keys]
    for s, vals in self.ev_list([k for k in ks if k is not None], st):
      if isinstance(vals, Sig):
        out.append((s, vals))
        continue
      keyvals = list(vals)
      for s2, vs in self.ev_list(node.values, s):
        if isinstance(vs, Sig):
          out.append((s2, vs))
          continue
        d = {}
        op = False
        it = iter(keyvals)
        for k, v in zip(ks, vs):
          if k is None:
            o = s2.heap.get(v) if isinstance(v, Ref) else None
            if isinstance(o, Dct):
              d.update(o.items)
              op = op or o.open
            else:
              op = True
          else:
            d[next(it)] = v
        out.append((s2, self.alloc(s2, self.site(s2, node, "dict"), Dct(d, op))))
    return out

  def ev_BoolOp(self, node, st):
    is_and = isinstance(node.op, ast.And)
    acc = [(st, None)]
    done = []
    for idx, n in enumerate(node.values):
      nxt = []
      for s, _ in acc:
        for s2, v in self.ev(n, s):
          if isinstance(v, Sig):
            done.append((s2, v))
            continue
          if idx == len(node.values) - 1:
            done.append((s2, v))
            continue
          for s3, t in self.truth(s2, v, n):
            if t == is_and:
              nxt.append((s3, None))
            else:
              v2 = v
              if isinstance(v, U) and not (s3.dom.get(v) or ("",))[0] == "in":
                pass
              done.append((s3, v2))
      acc = nxt
    return done

  def ev_UnaryOp(self, node, st):
    out = []
    for s, v in self.ev(node.operand, st):
      if isinstance(v, Sig):
        out.append((s, v))
      elif isinstance(node.op, ast.Not):
        for s2, t in self.truth(s, v, node.operand):
          out.append((s2, C(not t)))
      elif isinstance(node.op, ast.USub):
        v = self.resolve(s, v)
        if isinstance(v, C) and isinstance(v.v, (int, float)):
          out.append((s, C(-v.v)))
        else:
          out.append((s, U(("neg", v))))
      else:
        out.append((s, U(("un", type(node.op).__name__, v))))
    return out

  def ev_Compare(self, node, st):
    out = []
    for s, vals in self.ev_list([node.left] + node.comparators, st):
      if isinstance(vals, Sig):
        out.append((s, vals))
        continue
      pend = [s]
      for k, op in enumerate(node.ops):
        nxt = []
        for s2 in pend:
          for s3, t in self.compare(s2, op, vals[k], vals[k + 1], node):
            if isinstance(t, Sig):
              out.append((s3, t))
            elif not t:
              out.append((s3, FALSE))
            elif k == len(node.ops) - 1:
              out.append((s3, TRUE))
            else:
              nxt.append(s3)
        pend = nxt
    return out

  def ev_IfExp(self, node, st):
    out = []
    for s, v in self.ev(node.test, st):
      if isinstance(v, Sig):
        out.append((s, v))
        continue
      for s2, t in self.truth(s, v, node.test):
        out.extend(self.ev(node.body if t else node.orelse, s2))
    return out

  def ev_BinOp(self, node, st):
    out = []
    for s, vals in self.ev_list([node.left, node.right], st):
      if isinstance(vals, Sig):
        out.append((s, vals))
      else:
        out.extend(self.binop(s, node.op, vals[0], vals[1], node))
    return out

  def binop(self, st, op, a, b, node):
    a = self.resolve(st, a)
    b = self.resolve(st, b)
    r = self.plugin.on_binop(st, op, a, b, node)
    if r is not None:
      return r
    if isinstance(a, C) and isinstance(b, C):
      try:
        import operator as o
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Mod: o.mod,
             ast.FloorDiv: o.floordiv, ast.Div: o.truediv, ast.BitOr: o.or_,
             ast.BitAnd: o.and_}[type(op)]
        if not (isinstance(op, ast.Mult) and isinstance(a.v, (str, int)) and isinstance(b.v, (str, int))
                and isinstance(a.v, str) != isinstance(b.v, str) and max(
                    x for x in (a.v, b.v) if isinstance(x, int)) > 1000):
          return [(st, C(f(a.v, b.v)))]
      except Exception:
        pass
    if isinstance(op, ast.Add):
      ia = self._seq_items(st, a)
      ib = self._seq_items(st, b)
      if ia is not None and ib is not None:
        if isinstance(a, Tup):
          return [(st, Tup(tuple(ia + ib)))]
        return [(st, self._mklist(st, node, ia + ib, "cat"))]
      if ia is not None or ib is not None:
        if ia is None:
          ia = self.expand(st, a)
        if ib is None:
          ib = self.expand(st, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
          return [(st, Tup(tuple(ia + ib)))]
        return [(st, self._mklist(st, node, ia + ib, "cat"))]
    got = self.set_items(st, op, a, b)
    if got is not None:
      return [(st, self._mklist(st, node, got, "set"))]
    return [(st, U(("bin", type(op).__name__, a, b)))]

  def set_items(self, st, op, a, b):
    """Items of a set operation over known sets, else None."""
    if not isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
      return None
    ia, ib = self._seq_items(st, a), self._seq_items(st, b)
    if ia is None or ib is None or any(isinstance(x, Many) for x in ia + ib):
      return None
    if isinstance(op, ast.BitOr):
      return ia + [x for x in ib if x not in ia]
    if not all(isinstance(x, (C, E, Ref)) for x in ia + ib):
      return None
    if isinstance(op, ast.BitAnd):
      return [x for x in ia if x in ib]
    got = [x for x in ia if x not in ib]
    return got + [x for x in ib if x not in ia] if isinstance(op, ast.BitXor) else got

  def _mklist(self, st, node, items, tag):
    r = self.alloc(st, self.site(st, node, tag), Lst(()))
    st.heap[r] = Lst(items)
    self.plugin.on_list_add(st, r, items, node)
    return r

  def _seq_items(self, st, v):
    if isinstance(v, Tup):
      return list(v.items)
    if isinstance(v, Ref):
      o = st.heap.get(v)
      if isinstance(o, Lst):
        return list(o.items)
    return None

  def ev_Lambda(self, node, st):
    st.frames[st.cur].setdefault("$cap", TRUE)
    return [(st, Lam(node, st.cur, self.mod(st).name))]

  def ev_Starred(self, node, st):
    return self.ev(node.value, st)

  def ev_NamedExpr(self, node, st):
    out = []
    for s, v in self.ev(node.value, st):
      if not isinstance(v, Sig):
        s.env[node.target.id] = v
      out.append((s, v))
    return out

  def ev_Yield(self, node, st):
    out = []
    res = self.ev(node.value, st) if node.value is not None else [(st, NONE)]
    for s, v in res:
      if isinstance(v, Sig):
        out.append((s, v))
        continue
      if not self.gen_handlers:
        out.append((s, NONE))
        continue
      h = self.gen_handlers[-1]
      out.extend(h(s, v))
    return out

  def ev_YieldFrom(self, node, st):
    raise AnalysisError("yield from at %s" % self.where(st, node))

  def ev_Await(self, node, st):
    raise AnalysisError("await")

  # comprehensions
  def _comp(self, node, st, mk):
    """Evaluate a comprehension; mk(state)->elements expression evaluator."""
    frame_backup = None
    results = []

    def rec(s, gi, acc):
      if gi == len(node.generators):
        out = []
        for s2, v in mk(s):
          if isinstance(v, Sig):
            out.append((s2, v))
          else:
            out.append((s2, acc + [v]))
        return out
      g = node.generators[gi]
      out = []
      for s2, itv in self.ev(g.iter, s):
        if isinstance(itv, Sig):
          out.append((s2, itv))
          continue
        segs = self.segments(s2, itv, node)
        cur = [(s2, acc)]
        for kind, v in segs:
          nxt = []
          for s3, a in cur:
            if isinstance(a, Sig):
              nxt.append((s3, a))
              continue
            s_skip = s3.copy() if kind == "many" else None
            val = v(s3) if callable(v) else v
            for s4, sg in self.assign(g.target, val, s3):
              if isinstance(sg, Sig):
                nxt.append((s4, sg))
                continue
              conds = [(s4, True)]
              for c in g.ifs:
                n2 = []
                for s5, ok in conds:
                  if not ok:
                    n2.append((s5, ok))
                    continue
                  for s6, cv in self.ev(c, s5):
                    if isinstance(cv, Sig):
                      n2.append((s6, cv))
                    else:
                      n2.extend(self.truth(s6, cv, c))
                conds = n2
              for s5, ok in conds:
                if isinstance(ok, Sig):
                  nxt.append((s5, ok))
                elif not ok:
                  nxt.append((s5, a))
                else:
                  for s6, a2 in rec(s5, gi + 1, a):
                    if isinstance(a2, Sig):
                      nxt.append((s6, a2))
                    elif kind == "many":
                      nxt.append((s6, a + [x if isinstance(x, Many) else Many(x)
                                           for x in a2[len(a):]]))
                    else:
                      nxt.append((s6, a2))
            if s_skip is not None:
              nxt.append((s_skip, a))
          # for many segments the 'executed' variants carry Many(..) which
          # already includes the zero case: keep only those when they exist
          if kind == "many":
            ex = [x for x in nxt if isinstance(x[1], Sig) or x[1]]
            nxt = ex if ex else nxt[:1]
            dd = []
            seen = set()
            for s5, a in nxt:
              kk = (a.key() if isinstance(a, Sig) else tuple(a), s5.corekey())
              if kk in seen:
                continue
              seen.add(kk)
              dd.append((s5, a))
            nxt = dd
          cur = self.reduce([(s, Tup(tuple(a)) if not isinstance(a, Sig) else a) for s, a in nxt])
          cur = [(s, list(a.items) if isinstance(a, Tup) else a) for s, a in cur]
        out.extend(cur)
      return out
    saved = {}
    names = set()
    for g in node.generators:
      for n in ast.walk(g.target):
        if isinstance(n, ast.Name):
          names.add(n.id)
    for n in names:
      if n in st.env:
        saved[n] = st.env[n]
    res = rec(st, 0, [])
    for s, _ in res:
      for n in names:
        if n in saved:
          s.env[n] = saved[n]
        else:
          s.env.pop(n, None)
    return res

  def ev_ListComp(self, node, st):
    out = []
    for s, a in self._comp(node, st, lambda s: self.ev(node.elt, s)):
      if isinstance(a, Sig):
        out.append((s, a))
      else:
        out.append((s, self._mklist(s, node, a, "comp")))
    return out

  ev_SetComp = ev_ListComp

  def ev_GeneratorExp(self, node, st):
    out = []
    for s, a in self._comp(node, st, lambda s: self.ev(node.elt, s)):
      out.append((s, a if isinstance(a, Sig) else Tup(tuple(a))))
    return out

  def ev_DictComp(self, node, st):
    def mk(s):
      out = []
      for s2, vals in self.ev_list([node.key, node.value], s):
        out.append((s2, vals if isinstance(vals, Sig) else Tup(tuple(vals))))
      return out
    out = []
    for s, a in self._comp(node, st, mk):
      if isinstance(a, Sig):
        out.append((s, a))
        continue
      d = {}
      op = False
      for x in a:
        if isinstance(x, Many):
          op = True
        elif isinstance(x, Tup):
          d[x.items[0]] = x.items[1]
      out.append((s, self.alloc(s, self.site(s, node, "dict"), Dct(d, op))))
    return out

  # ------------------------------------------------------------ calls

  def ev_Call(self, node, st):
    out = []
    # super()
    if isinstance(node.func, ast.Name) and node.func.id == "super":
      return self._super(node, st)
    if (isinstance(node.func, ast.Name) and node.func.id in ("any", "all")
        and len(node.args) == 1 and not node.keywords
        and isinstance(node.args[0], ast.GeneratorExp)):
      return self._anyall(node, st)
    for s, f in self.ev(node.func, st):
      if isinstance(f, Sig):
        out.append((s, f))
        continue
      for s2, av in self.ev_args(node, s):
        if isinstance(av, Sig):
          out.append((s2, av))
          continue
        args, kwargs = av
        out.extend(self.call(s2, f, args, kwargs, node))
    return self.reduce(out)

  def _anyall(self, node, st):
    """any/all over a generator expression: the loop that stops at the first
    deciding element."""
    out = []
    for s, f in self.ev(node.func, st):
      if isinstance(f, Sig):
        out.append((s, f))
        continue
      if not (isinstance(f, Ext) and f.name in ("any", "all")):
        for s2, av in self.ev_args(node, s):
          if isinstance(av, Sig):
            out.append((s2, av))
          else:
            out.extend(self.call(s2, f, av[0], av[1], node))
        continue
      gen = node.args[0]
      loop = getattr(node, "_sa_loop", None)
      if loop is None:
        # (the first iterable is evaluated outside the loop's scope: the same)
        hit = ast.Return(value=ast.Constant(value=node.func.id == "any"))
        test = gen.elt
        if node.func.id == "all":
          test = ast.UnaryOp(op=ast.Not(), operand=test)
        body = ast.If(test=test, body=[hit], orelse=[])
        for g in reversed(gen.generators):
          for c in reversed(g.ifs):
            body = ast.If(test=c, body=[body], orelse=[])
          body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
        for n in ast.walk(body):
          if not hasattr(n, "lineno"):
            ast.copy_location(n, node)
        loop = node._sa_loop = body
      names = {n.id for g in gen.generators for n in ast.walk(g.target)
               if isinstance(n, ast.Name)}
      saved = {n: s.env[n] for n in names if n in s.env}
      for s2, sig in self.block([loop], s):
        for n in names:
          if n in saved:
            s2.env[n] = saved[n]
          else:
            s2.env.pop(n, None)
        if sig is None:
          out.append((s2, C(node.func.id == "all")))
        elif sig.kind == "return":
          out.append((s2, sig.val))
        else:
          out.append((s2, sig))
    return self.reduce(out)

  def ev_args(self, node, st):
    acc = [(st, ([], {}))]
    for a in node.args:
      nxt = []
      star = isinstance(a, ast.Starred)
      for s, av in acc:
        if isinstance(av, Sig):
          nxt.append((s, av))
          continue
        for s2, v in self.ev(a.value if star else a, s):
          if isinstance(v, Sig):
            nxt.append((s2, v))
          elif star:
            got = self.plugin.on_star(s2, self.resolve(s2, v), node)
            if got is not None:
              for s3, items in got:
                nxt.append((s3, items if isinstance(items, Sig) else (av[0] + items, av[1])))
            else:
              nxt.append((s2, (av[0] + self.expand(s2, v), av[1])))
          else:
            nxt.append((s2, (av[0] + [v], av[1])))
      acc = nxt
    for k in node.keywords:
      nxt = []
      for s, av in acc:
        if isinstance(av, Sig):
          nxt.append((s, av))
          continue
        for s2, v in self.ev(k.value, s):
          if isinstance(v, Sig):
            nxt.append((s2, v))
          else:
            kw = dict(av[1])
            if k.arg is None:
              o = s2.heap.get(v) if isinstance(v, Ref) else None
              if isinstance(o, Dct):
                for kk, vv in o.items.items():
                  if isinstance(kk, C):
                    kw[kk.v] = vv
                if o.open:
                  kw["**"] = v
              else:
                kw["**"] = v
            else:
              kw[k.arg] = v
            nxt.append((s2, (av[0], kw)))
      acc = nxt
    return acc

  def _super(self, node, st):
    if node.args:
      out = []
      for s, vals in self.ev_list(node.args, st):
        if isinstance(vals, Sig):
          out.append((s, vals))
        else:
          k = vals[0]
          out.append((s, SuperV(k.klass, vals[1]) if isinstance(k, ClsV) else U(("superu",))))
      return out
    env = st.env
    info = env.get("$fn")
    if info is None or info.info.klass is None:
      return [(st, U(("superu",)))]
    first = info.info.params[0]
    return [(st, SuperV(info.info.klass, env[first]))]

  def call(self, st, f, args, kwargs, node):
    f = self.resolve(st, f)
    r = self.plugin.on_call(st, f, args, kwargs, node)
    if r is not None:
      return r
    if isinstance(f, FnV):
      return self.call_fn(st, f, args, kwargs, node)
    if isinstance(f, Bound):
      return self.call_fn(st, f.fn, [f.selfv] + args, kwargs, node)
    if isinstance(f, Lam):
      return self.call_lambda(st, f, args, kwargs, node)
    if isinstance(f, U) and f.key[0] == "nttype":
      names = [x.v for x in f.key[2:]]
      if any(isinstance(x, Many) for x in args) or "**" in kwargs:
        return [(st, NTup(tuple(self.fresh(st, self.site(st, node, "nt:" + n)) for n in names), tuple(names)))]
      vals = dict(zip(names, args))
      if len(args) <= len(names) and not set(kwargs) & set(vals):
        vals.update(kwargs)
      if len(args) > len(names) or set(vals) != set(names):
        st.note(self.where(st, node), "wrong arguments for namedtuple %s" % show(f.key[1]))
        return [(st, Sig("raise", ExcV("TypeError", NONE)))]
      return [(st, NTup(tuple(vals[n] for n in names), tuple(names)))]
    if isinstance(f, ClsV):
      return self.instantiate(st, f.klass, args, kwargs, node)
    if isinstance(f, BM):
      return self.builtin_method(st, f.base, f.name, args, kwargs, node)
    if isinstance(f, Ref):
      o = st.heap.get(f)
      if isinstance(o, Inst) and isinstance(o.klass, Klass):
        k, m = o.klass.lookup("__call__")
        if isinstance(m, FunctionInfo):
          return self.call_fn(st, FnV(m, None), [f] + args, kwargs, node)
    if isinstance(f, Ext):
      r = self.builtin_call(st, f.name, args, kwargs, node)
      if r is not None:
        return r
    return self.unknown_call(st, f, args, kwargs, node)

  def unknown_call(self, st, f, args, kwargs, node):
    r = self.plugin.on_unknown_call(st, f, args, kwargs, node)
    if r is not None:
      return r
    pure = False
    if isinstance(f, U) and f.key[0] == "attr" and f.key[2] in PURE_METHODS:
      pure = True
    if isinstance(f, Ext) and f.name in PURE_BUILTINS:
      pure = True
    if isinstance(f, Ext) and (f.name.startswith("os.path.") or f.name in (
        "re.match", "re.compile", "re.search", "re.sub", "math.ceil")):
      pure = True
    if pure and not any(isinstance(a, Many) for a in args):
      v = U(("call", f) + tuple(args) + tuple(x for k in sorted(kwargs) for x in (k, kwargs[k])))
    else:
      v = self.fresh(st, self.site(st, node, "call"))
    out = [(st, v)]
    if st.tryd and self.plugin.may_raise(st, f, node):
      s2 = st.copy()
      s2.note(self.where(st, node), "call %s raises" % show(f))
      out.append((s2, Sig("raise", ExcV("?", NONE))))
    return out

  def bind_args(self, st, info, args, kwargs, node):
    """-> dict param->value or None if arguments cannot be matched."""
    a = info.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    args = list(args)
    if any(isinstance(x, Many) for x in args):
      # unknown number of positionals
      i = 0
      while i < len(args) and not isinstance(args[i], Many) and i < len(names):
        env[names[i]] = args[i]
        i += 1
      for n in names[i:]:
        if n not in kwargs:
          env[n] = U(("argof", info.qual, n))
      if a.vararg:
        env[a.vararg.arg] = U(("varargs", info.qual))
    else:
      for n, v in zip(names, args):
        env[n] = v
      extra = args[len(names):]
      if a.vararg:
        env[a.vararg.arg] = Tup(tuple(extra))
      elif extra:
        return None
    kwrest = {}
    star = kwargs.get("**")
    for k, v in kwargs.items():
      if k == "**":
        continue
      if k in names or k in [x.arg for x in a.kwonlyargs]:
        env[k] = v
      else:
        kwrest[k] = v
    if a.kwarg:
      env[a.kwarg.arg] = self.alloc(st, ("kw", info.qual), Dct(
          {C(k): v for k, v in kwrest.items()}, star is not None))
    elif kwrest:
      return None
    defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
      if d is not None:
        defaults[x.arg] = d
    for n in names + [x.arg for x in a.kwonlyargs]:
      if n not in env:
        if star is not None:
          env[n] = U(("kwarg", info.qual, n))
        elif n in defaults:
          v = self.const_expr(info.mod, defaults[n])
          env[n] = v if v is not None else U(("default", info.qual, n))
        else:
          return None
    return env

  def call_fn(self, st, f, args, kwargs, node):
    info = f.info
    if info.is_generator and not info.is_ctxmgr:
      return [(st, GenV(f, tuple(args), tuple(sorted(kwargs.items())), self.site(st, node, "gen") if node is not None else ()))]
    if info.is_ctxmgr:
      return [(st, GenV(f, tuple(args), tuple(sorted(kwargs.items())), self.site(st, node, "gen") if node is not None else ()))]
    r = self.plugin.on_inline(st, info, args, kwargs, node)
    if r is not None:
      return r
    return self.inline(st, f, args, kwargs, node)

  def inline(self, st, f, args, kwargs, node, dedup=True):
    info = f.info
    if st.depth >= self.MAXDEPTH or st.stack.count(info.qual) >= self.plugin.MAXREC or \
        not self.plugin.inline_ok(st, info, args, kwargs):
      return self.unknown_call(st, f, args, kwargs, node)
    env = self.bind_args(st, info, args, kwargs, node)
    if env is None:
      return self.bad_args(st, info, args, kwargs, node)
    self.fn_seen.add(info.qual)
    env["$mod"] = ModV(info.mod)
    env["$fn"] = f
    if f.clo is not None:
      env["$clo"] = C(f.clo)
    caller = st.cur
    fid = self.new_frame(st)
    st.frames[fid] = env
    st.cur = fid
    st.depth += 1
    st.stack = st.stack + (info.qual,)
    self.plugin.on_enter(st, info)
    body = info.node.body
    out = []
    for s, sig in self.block(body, st):
      v = NONE
      if isinstance(sig, Sig):
        if sig.kind == "return":
          v = sig.val
        elif sig.kind == "raise" or sig.kind.startswith("gen"):
          v = sig
        else:
          raise AnalysisError("stray %s in %s" % (sig.kind, info.qual))
      self.plugin.on_return(s, info, v)
      if "$cap" not in s.frames[fid]:
        del s.frames[fid]
      s.cur = caller
      s.depth -= 1
      s.stack = s.stack[:-1]
      out.append((s, v))
    return self.reduce(out)

  def bad_args(self, st, info, args, kwargs, node):
    st.note(self.where(st, node), "call of %s does not match its signature" % info.qual)
    return [(st, Sig("raise", ExcV("TypeError", NONE)))]

  def call_lambda(self, st, f, args, kwargs, node):
    names = [x.arg for x in f.node.args.args]
    env = {"$mod": ModV(self.model.modules[f.modname]), "$clo": C(f.fid)}
    for n, v in zip(names, args):
      env[n] = v
    for n in names[len(args):]:
      env[n] = kwargs.get(n, U(("lamarg", n)))
    caller = st.cur
    fid = self.new_frame(st)
    st.frames[fid] = env
    st.cur = fid
    out = []
    for s, v in self.ev(f.node.body, st):
      del s.frames[fid]
      s.cur = caller
      out.append((s, v))
    return out

  def instantiate(self, st, klass, args, kwargs, node):
    if klass.qual in self.model.enum_members:
      return [(st, U(("enumcall", klass.qual) + tuple(args)))]
    bases = [k for k in klass.mro() if not isinstance(k, Klass)]
    exc = any(b in ("Exception", "BaseException", "ValueError", "RuntimeError", "KeyError") for b in bases)
    if exc:
      return [(st, ExcV(klass.qual, args[0] if args else NONE))]
    if any(b in ("tuple", "dict", "list", "str", "int") for b in bases):
      return [(st, self.fresh(st, self.site(st, node, "new")))]
    r = self.alloc(st, self.site(st, node, "new:" + klass.qual), Inst(klass, {}))
    k, m = klass.lookup("__init__")
    if isinstance(m, FunctionInfo):
      out = []
      for s, v in self.call_fn(st, FnV(m, None), [r] + args, kwargs, node):
        out.append((s, v if isinstance(v, Sig) else r))
      return out
    return [(st, r)]

  # ---- builtin functions

  def builtin_call(self, st, name, args, kwargs, node):
    if any(isinstance(a, Many) for a in args):
      return None
    a0 = self.resolve(st, args[0]) if args else None
    if name.startswith("builtins."):
      name = name[9:]
    c = getattr(_bi, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
      return [(st, ExcV(name, args[0] if args else NONE))]
    if name == "isinstance" and len(args) == 2:
      return [(s, C(t)) for s, t in self.isinst(st, a0, args[1], node)]
    if name == "len" and len(args) == 1:
      if isinstance(a0, Tup):
        return [(st, C(len(a0.items)))] if not any(isinstance(x, Many) for x in a0.items) else None
      if isinstance(a0, C) and hasattr(a0.v, "__len__"):
        return [(st, C(len(a0.v)))]
      if isinstance(a0, Ref):
        o = st.heap.get(a0)
        if isinstance(o, Lst):
          if not any(isinstance(x, Many) for x in o.items):
            return [(st, C(len(o.items)))]
          return [(st, U(("len", a0) + tuple(o.items)))]
        if isinstance(o, Dct):
          if not o.open:
            return [(st, C(len(o.items)))]
          return [(st, self.fresh(st, self.site(st, node, "len")))]
      return None
    if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed") and len(args) <= 1 + (name == "sorted"):
      if name == "sorted" and kwargs:
        pass
      items = self.expand(st, a0) if args else []
      if name == "sorted" and len(items) > 1:
        got = self.sort_items(st, items, kwargs, node)
        if got is not None:
          return [(st, self._mklist(st, node, got, "list"))]
        alt = self.plugin.on_sort(st, items, kwargs, node)
        if alt is not None:
          return [(s, self._mklist(s, node, got, "list")) for s, got in alt]
      if name in ("set", "frozenset") and items and all(isinstance(x, C) for x in items):
        items = list(dict.fromkeys(items))
      if name in ("sorted", "set", "frozenset") and len(items) > 1:
        if not (name == "sorted" and not kwargs and all(isinstance(x, C) for x in items)):
          vals = []
          for x in items:
            x = x if isinstance(x, Many) else Many(x)
            if x not in vals:
              vals.append(x)
          items = vals if name == "sorted" else items
        else:
          try:
            items = sorted(items, key=lambda x: x.v)
          except TypeError:
            pass
      if name == "reversed":
        items = items[::-1]
      if name in ("tuple", "frozenset", "reversed"):
        return [(st, Tup(tuple(items)))]
      return [(st, self._mklist(st, node, items, "list"))]
    if name in ("dict", "OrderedDict", "collections.OrderedDict"):
      d = {}
      op = False
      if args:
        o = st.heap.get(a0) if isinstance(a0, Ref) else None
        if isinstance(o, Dct):
          d.update(o.items)
          op = o.open
        else:
          op = True
      for k, v in kwargs.items():
        if k == "**":
          op = True
        else:
          d[C(k)] = v
      return [(st, self.alloc(st, self.site(st, node, "dict"), Dct(d, op)))]
    if name == "enumerate":
      items = self.expand(st, a0)
      start = 0
      if len(args) > 1 and isinstance(args[1], C):
        start = args[1].v
      out = []
      known = True
      for i, x in enumerate(items):
        if isinstance(x, Many):
          known = False
          out.append(Many(Tup((U(("idx", a0)), x.v))))
        else:
          out.append(Tup((C(start + i) if known else U(("idx", a0)), x)))
      return [(st, Tup(tuple(out)))]
    if name == "zip":
      cols = [self.expand(st, self.resolve(st, a)) for a in args]
      if cols and not any(isinstance(x, Many) for c_ in cols for x in c_):
        return [(st, Tup(tuple(Tup(t) for t in zip(*cols))))]
      reps = []
      for c_, a in zip(cols, args):
        if len(c_) == 1 and isinstance(c_[0], Many):
          reps.append(c_[0].v)
        else:
          reps.append(U(("elem", a)))
      return [(st, Tup((Many(Tup(tuple(reps))),)))]
    if name == "range":
      vs = [self.resolve(st, a) for a in args]
      if all(isinstance(v, C) for v in vs):
        rg = range(*[v.v for v in vs])
        if len(rg) <= 16:
          return [(st, Tup(tuple(C(i) for i in rg)))]
      return [(st, Tup((Many(U(("idx",) + tuple(vs))),)))]
    if name in ("min", "max", "abs", "int", "str", "bool", "sum", "repr", "float", "ord", "chr", "any", "all"):
      vs = [self.resolve(st, a) for a in args]
      if name == "bool" and len(vs) == 1:
        return [(s, C(t)) for s, t in self.truth(st, vs[0], node)]
      if name in ("any", "all") and len(vs) == 1:
        items = self.expand(st, vs[0])
        # of repeated items one stands for all that decide nothing
        if not any(isinstance(x, Many) and not isinstance(x.v, (U, C)) for x in items):
          pend = [st]
          out = []
          for x in items:
            nxt = []
            for s in pend:
              if isinstance(x, Many):
                nxt.append(s.copy())
              for s2, t in self.truth(s, x.v if isinstance(x, Many) else x, node):
                if t == (name == "any"):
                  out.append((s2, C(t)))
                else:
                  nxt.append(s2)
            pend = nxt
          out.extend((s, C(name == "all")) for s in pend)
          return out
        return [(st, self.fresh(st, self.site(st, node, name)))]
      if name in ("max", "min", "sum") and len(vs) == 1:
        items = self.expand(st, vs[0])
        if items and all(isinstance(x, C) for x in items):
          try:
            return [(st, C(getattr(_bi, name)([x.v for x in items])))]
          except TypeError:
            return [(st, Sig("raise", ExcV("TypeError", NONE)))]
        if name == "sum" and not items:
          return [(st, C(0))]
      if vs and all(isinstance(v, C) for v in vs) and not kwargs:
        try:
          return [(st, C(getattr(_bi, name)(*[v.v for v in vs])))]
        except Exception:
          return [(st, Sig("raise", ExcV("ValueError", NONE)))]
      return None
    if name == "getattr" and len(args) >= 2 and isinstance(args[1], C):
      return self.get_attr(st, a0, args[1].v, node)
    if name == "setattr" and len(args) == 3 and isinstance(args[1], C):
      self.set_attr(st, a0, args[1].v, args[2], node)
      return [(st, NONE)]
    if name == "hasattr" and len(args) == 2 and isinstance(a0, C) and isinstance(args[1], C):
      return [(st, C(hasattr(a0.v, args[1].v)))]
    if name == "callable" and len(args) == 1 and isinstance(a0, (FnV, Bound, ClsV, BM, Lam)):
      return [(st, TRUE)]
    if name == "hasattr" and len(args) == 2 and isinstance(a0, Ref) and isinstance(args[1], C):
      o = st.heap.get(a0)
      if isinstance(o, (Lst, Dct)):
        return [(st, C(hasattr([] if isinstance(o, Lst) else {}, args[1].v)))]
      if isinstance(o, Inst) and isinstance(o.klass, Klass):
        if args[1].v in o.attrs or o.klass.lookup(args[1].v)[1] is not None:
          return [(st, TRUE)]
        return [(st, FALSE)]
      return None
    if name == "type" and len(args) == 1:
      if isinstance(a0, Ref) and isinstance(st.heap.get(a0), Inst) and isinstance(st.heap[a0].klass, Klass):
        return [(st, ClsV(st.heap[a0].klass))]
      return None
    if name == "iter" and len(args) == 1:
      return [(st, a0)]
    if name == "object":
      return [(st, self.fresh(st, self.site(st, node, "object")))]
    if name == "print":
      return [(st, NONE)]
    if name in ("copy.copy",) and isinstance(a0, Ref):
      o = st.heap.get(a0)
      if isinstance(o, Lst):
        return [(st, self._mklist(st, node, list(o.items), "copy"))]
    return None

  STRT = {"str", "bytes", "unicode"}

  def isinst(self, st, v, cls, node):
    cls = self.resolve(st, cls)
    if isinstance(cls, Tup):
      pend = [st]
      out = []
      for c in cls.items:
        nxt = []
        for s in pend:
          for s2, t in self.isinst(s, v, c, node):
            if t:
              out.append((s2, True))
            else:
              nxt.append(s2)
        pend = nxt
      return out + [(s, False) for s in pend]
    if isinstance(cls, Ext):
      cn = cls.name
      t = None
      if isinstance(v, C):
        c = getattr(_bi, cn, None)
        t = isinstance(c, type) and isinstance(v.v, c)
      elif isinstance(v, Tup):
        t = cn in ("tuple", "object")
      elif isinstance(v, Ref):
        o = st.heap.get(v)
        if isinstance(o, Lst):
          t = cn in ("list", "object")
        elif isinstance(o, Dct):
          t = cn in ("dict", "object", "collections.abc.Mapping", "Mapping")
        elif isinstance(o, Inst):
          t = cn == "object" or (isinstance(o.klass, Klass) and o.klass.issub(cn))
      elif isinstance(v, (E, FnV, Bound, ClsV, ModV)):
        t = cn == "object"
      if t is not None:
        return [(st, t)]
    if isinstance(cls, ClsV):
      if isinstance(v, Ref):
        o = st.heap.get(v)
        if isinstance(o, Inst) and isinstance(o.klass, Klass):
          return [(st, o.klass.issub(cls.klass))]
        if isinstance(o, (Lst, Dct)):
          return [(st, False)]
      if isinstance(v, (C, Tup, FnV, Bound, ClsV, ModV)):
        return [(st, False)]
      if isinstance(v, E):
        return [(st, v.cls == cls.klass.qual)]
      if isinstance(v, U):
        # consistent with facts about sub/superclasses
        for k, t in st.truth.items():
          if k.key[0] == "isinst" and k.key[1] == v and isinstance(k.key[2], ClsV):
            other = k.key[2].klass
            if t and other.issub(cls.klass):
              return [(st, True)]
            if not t and cls.klass.issub(other):
              return [(st, False)]
            if t and not cls.klass.issub(other) and not other.issub(cls.klass):
              return [(st, False)]
    if isinstance(v, U) and isinstance(cls, (ClsV, Ext)):
      d = st.dom.get(v)
      if d is not None and d[0] == "in":
        res = set()
        for x in d[1]:
          rr = self.isinst(st.copy(), x, cls, node)
          res |= {b for _, b in rr}
        if len(res) == 1:
          return [(st, res.pop())]
    return self.fork_fact(st, U(("isinst", v, cls)), node)

  # ---- builtin methods

  def builtin_method(self, st, base, name, args, kwargs, node):
    r = self.plugin.on_method(st, base, name, args, kwargs, node)
    if r is not None:
      return r
    base = self.resolve(st, base)
    if isinstance(base, Ref):
      o = st.heap.get(base)
      if isinstance(o, Lst):
        return self.list_method(st, base, o, name, args, kwargs, node)
      if isinstance(o, Dct):
        return self.dict_method(st, base, o, name, args, kwargs, node)
    if isinstance(base, C) and isinstance(base.v, (str, bytes)):
      vs = [self.resolve(st, a) for a in args]
      if name == "join" and len(vs) == 1:
        return [(st, U(("join", base, vs[0])))]
      if all(isinstance(v, C) for v in vs) and not kwargs and hasattr(base.v, name):
        try:
          r = getattr(base.v, name)(*[v.v for v in vs])
          if isinstance(r, list):
            return [(st, self._mklist(st, node, [C(x) for x in r], "m"))]
          if isinstance(r, tuple):
            return [(st, Tup(tuple(C(x) for x in r)))]
          return [(st, C(r))]
        except Exception:
          pass
      return [(st, U(("mcall", base, name) + tuple(vs) + tuple(
          x for k in sorted(kwargs) for x in (k, kwargs[k]))))]
    if isinstance(base, Tup):
      if name == "index":
        return [(st, U(("call", BM(base, name)) + tuple(args)))]
    return self.unknown_call(st, BM(base, name), args, kwargs, node)

  def sort_items(self, st, items, kwargs, node):
    """The sorted items when their order is known, else None."""
    if any(isinstance(x, Many) for x in items) or set(kwargs) - {"key", "reverse"}:
      return None
    items = [self.resolve(st, x) for x in items]
    keys = items
    if kwargs.get("key", NONE) != NONE:
      keys = []
      for x in items:
        r = self.call(st.copy(), kwargs["key"], [x], {}, node)
        if len(r) != 1 or isinstance(r[0][1], Sig):
          return None
        keys.append(self.resolve(r[0][0], r[0][1]))
    rev = self.resolve(st, kwargs.get("reverse", FALSE))
    if not isinstance(rev, C):
      return None
    try:
      order = sorted(range(len(items)), key=lambda i: OrderKey(keys[i]), reverse=bool(rev.v))
    except Incomparable:
      return None
    return [items[i] for i in order]

  def list_method(self, st, ref, o, name, args, kwargs, node):
    if name == "append" and len(args) == 1:
      st.heap[ref] = Lst(o.items + (args[0],), o.meta)
      self.plugin.on_list_add(st, ref, args, node)
      return [(st, NONE)]
    if name == "extend" and len(args) == 1:
      items = self.expand(st, args[0])
      st.heap[ref] = Lst(o.items + tuple(items), o.meta)
      self.plugin.on_list_add(st, ref, items, node)
      return [(st, NONE)]
    if name == "insert" and len(args) == 2:
      i = self.resolve(st, args[0])
      if isinstance(i, C) and i.v == 0:
        st.heap[ref] = Lst((args[1],) + o.items, o.meta)
      elif isinstance(i, C) and not any(isinstance(x, Many) for x in o.items):
        l = list(o.items)
        l.insert(i.v, args[1])
        st.heap[ref] = Lst(l, o.meta)
      else:
        st.heap[ref] = Lst([x if isinstance(x, Many) else Many(x) for x in o.items]
                           + [Many(args[1])], o.meta)
      self.plugin.on_list_add(st, ref, [args[1]], node)
      return [(st, NONE)]
    if name == "pop":
      i = self.resolve(st, args[0]) if args else C(-1)
      if isinstance(i, C) and o.items:
        if not any(isinstance(x, Many) for x in o.items):
          l = list(o.items)
          try:
            v = l.pop(i.v)
          except IndexError:
            return [(st, Sig("raise", ExcV("IndexError", NONE)))]
          st.heap[ref] = Lst(l, o.meta)
          return [(st, v)]
        if i.v == -1 and not isinstance(o.items[-1], Many):
          st.heap[ref] = Lst(o.items[:-1], o.meta)
          return [(st, o.items[-1])]
        if i.v == 0 and not isinstance(o.items[0], Many):
          st.heap[ref] = Lst(o.items[1:], o.meta)
          return [(st, o.items[0])]
        st.heap[ref] = Lst([x if isinstance(x, Many) else Many(x) for x in o.items], o.meta)
        vs = set(x.v if isinstance(x, Many) else x for x in o.items)
        if len(vs) == 1:
          return [(st, vs.pop())]
        return [(st, self.fresh(st, self.site(st, node, "pop")))]
      if not o.items:
        return [(st, Sig("raise", ExcV("IndexError", NONE)))]
      return [(st, self.fresh(st, self.site(st, node, "pop")))]
    if name == "copy":
      return [(st, self._mklist(st, node, list(o.items), "copy"))]
    if name == "reverse":
      st.heap[ref] = Lst(o.items[::-1], o.meta)
      return [(st, NONE)]
    if name == "clear":
      st.heap[ref] = Lst((), o.meta)
      return [(st, NONE)]
    if name == "sort":
      got = self.sort_items(st, list(o.items), kwargs, node)
      if got is not None:
        st.heap[ref] = Lst(got, o.meta)
        return [(st, NONE)]
      alt = self.plugin.on_sort(st, list(o.items), kwargs, node)
      if alt is not None:
        for s, got in alt:
          s.heap[ref] = Lst(got, o.meta)
        return [(s, NONE) for s, _ in alt]
      st.heap[ref] = Lst([x if isinstance(x, Many) else Many(x) for x in o.items]
                         if len(o.items) > 1 else o.items, o.meta)
      return [(st, NONE)]
    if name in ("add", "update", "discard", "remove"):
      if name == "add":
        st.heap[ref] = Lst(o.items + (args[0],) if args[0] not in o.items else o.items, o.meta)
      elif name == "update":
        items = self.expand(st, args[0])
        st.heap[ref] = Lst(o.items + tuple(x for x in items if x not in o.items), o.meta)
      elif args and all(isinstance(x, C) for x in o.items) and isinstance(self.resolve(st, args[0]), C):
        items = list(o.items)
        a = self.resolve(st, args[0])
        if a in items:
          items.remove(a)
          st.heap[ref] = Lst(items, o.meta)
        elif name == "remove":
          return [(st, Sig("raise", ExcV("ValueError", NONE)))]
      else:
        st.heap[ref] = Lst([x if isinstance(x, Many) else Many(x) for x in o.items], o.meta)
      return [(st, NONE)]
    if name in ("index", "count"):
      return [(st, U(("call", BM(ref, name)) + tuple(args)))]
    return self.unknown_call(st, BM(ref, name), args, kwargs, node)

  def dict_method(self, st, ref, o, name, args, kwargs, node):
    k = self.resolve(st, args[0]) if args else None
    known = not o.open and all(self.is_const(x) for x in o.items)
    if name == "get":
      d = args[1] if len(args) > 1 else NONE
      if k in o.items:
        return [(st, o.items[k])]
      if known and self.is_const(k):
        return [(st, d)]
      if known and isinstance(k, U) and len(o.items) <= 40:
        out = []
        for kk, vv in o.items.items():
          s2 = st.copy()
          if self.restrict(s2, k, frozenset([kk]), True):
            self.note(s2, node, "%s == %s" % (show(k), show(kk)))
            out.append((s2, vv))
        if self.restrict(st, k, frozenset(o.items), False):
          out.append((st, d))
        return out
      return [(st, self.fresh(st, self.site(st, node, "get")))]
    if name == "items":
      items = [Tup((a, b)) for a, b in o.items.items()]
      if o.open:
        items.append(Many(Tup((U(("key", ref)), U(("val", ref))))))
      return [(st, Tup(tuple(items)))]
    if name == "keys":
      items = list(o.items)
      if o.open:
        items.append(Many(U(("key", ref))))
      return [(st, Tup(tuple(items)))]
    if name == "values":
      items = list(o.items.values())
      if o.open:
        items.append(Many(U(("val", ref))))
      return [(st, Tup(tuple(items)))]
    if name == "update":
      d = dict(o.items)
      op = o.open
      if args:
        o2 = st.heap.get(k) if isinstance(k, Ref) else None
        if isinstance(o2, Dct):
          d.update(o2.items)
          op = op or o2.open
        else:
          op = True
      for kk, vv in kwargs.items():
        d[C(kk)] = vv
      st.heap[ref] = Dct(d, op)
      return [(st, NONE)]
    if name == "pop":
      if k in o.items:
        d = dict(o.items)
        v = d.pop(k)
        st.heap[ref] = Dct(d, o.open)
        return [(st, v)]
      if known and self.is_const(k):
        if len(args) > 1:
          return [(st, args[1])]
        return [(st, Sig("raise", ExcV("KeyError", NONE)))]
      return [(st, self.fresh(st, self.site(st, node, "pop")))]
    if name == "setdefault":
      if k in o.items:
        return [(st, o.items[k])]
      if known and self.is_const(k):
        d = dict(o.items)
        d[k] = args[1] if len(args) > 1 else NONE
        st.heap[ref] = Dct(d, o.open)
        return [(st, d[k])]
      st.heap[ref] = Dct(o.items, True)
      return [(st, self.fresh(st, self.site(st, node, "get")))]
    if name == "copy":
      return [(st, self.alloc(st, self.site(st, node, "copy"), Dct(o.items, o.open)))]
    if name == "clear":
      st.heap[ref] = Dct({}, False)
      return [(st, NONE)]
    return self.unknown_call(st, BM(ref, name), args, kwargs, node)

  # ------------------------------------------------------------ iteration

  def segments(self, st, v, node):
    """Iteration plan: list of ('one', val) | ('many', fn(st)->val)."""
    v = self.resolve(st, v)
    r = self.plugin.on_iter(st, v, node)
    if r is not None:
      return r
    if isinstance(v, C) and not isinstance(v.v, str):
      return []
    items = self.expand(st, v)
    segs = []
    for x in items:
      if isinstance(x, Many):
        segs.append(("many", self._many_fn(x.v, node)))
      else:
        segs.append(("one", x))
    return segs

  def _many_fn(self, rep, node):
    def fn(st):
      if isinstance(rep, U) and rep.key[0] == "elem":
        u = self.fresh(st, self.site(st, node, "elem"))
        st.uattr[(u, "$elemof")] = rep.key[1] if isinstance(rep.key[1], Val) else NONE
        return u
      if isinstance(rep, Tup):
        return Tup(tuple(fn_one(st, x, i) for i, x in enumerate(rep.items)))
      return rep

    def fn_one(st, x, i):
      if isinstance(x, U) and x.key[0] in ("elem", "idx", "key", "val"):
        return self.fresh(st, self.site(st, node, "elem%d" % i))
      return x
    fn.rep = rep
    return fn

  # ------------------------------------------------------------ statements

  def block(self, stmts, st):
    """-> list of (state, None | Sig)."""
    pend = [st]
    out = []
    for stmt in stmts:
      nxt = []
      for s in pend:
        for s2, sig in self.stmt(stmt, s):
          if sig is None:
            self.trim(s2, stmt, False)
            self.plugin.after_stmt(s2)
            nxt.append((s2, None))
          else:
            out.append((s2, sig))
      nxt = self.reduce(nxt)
      pend = [s for s, _ in nxt]
      if not pend:
        break
    out = self.reduce(out)
    return [(s, None) for s in pend] + out

  def trim(self, st, stmt, before):
    """Forget the locals that are dead before/after `stmt`."""
    lv = liveness.of(stmt)
    if lv is None:
      return
    keep = (lv.live_in if before else lv.live_out).get(id(stmt))
    if keep is None:
      return
    env = st.env
    dead = [k for k in env if k[0] != "$" and k not in keep and k not in lv.keep]
    if dead:
      env = dict(env)
      for k in dead:
        del env[k]
      st.frames[st.cur] = env

  def stmt(self, node, st):
    m = getattr(self, "st_" + type(node).__name__, None)
    if m is None:
      raise AnalysisError("unsupported statement %s at %s" % (
          type(node).__name__, self.where(st, node)))
    return m(node, st)

  def st_Expr(self, node, st):
    if isinstance(node.value, ast.Constant):
      return [(st, None)]
    return [(s, v if isinstance(v, Sig) else None) for s, v in self.ev(node.value, st)]

  def st_Pass(self, node, st):
    return [(st, None)]

  def st_Global(self, node, st):
    return [(st, None)]

  st_Nonlocal = st_Global

  def st_Import(self, node, st):
    for a in node.names:
      nm = a.asname or a.name.split(".")[0]
      full = a.name if a.asname else a.name.split(".")[0]
      m = self.model.modules.get(full)
      st.env[nm] = ModV(m) if m else Ext(full)
    return self._import_raise(st, node)

  def _import_raise(self, st, node):
    out = [(st, None)]
    if st.tryd:
      s2 = st.copy()
      out.append((s2, Sig("raise", ExcV("ImportError", NONE))))
    return out

  def st_ImportFrom(self, node, st):
    base = self.mod(st)._abs(node)
    for a in node.names:
      ent = self.model.resolve_from(base, a.name)
      v = self.ent_value(ent)
      if v is None and isinstance(ent, tuple) and ent[0] == "var":
        v = self.eval_global(ent[1], ent[2])
      st.env[a.asname or a.name] = v if v is not None else U(("glob", base, a.name))
    return self._import_raise(st, node)

  def st_FunctionDef(self, node, st):
    info = FunctionInfo(self.model, self.mod(st), node,
                        (st.stack[-1] if st.stack else "") + ".<locals>." + node.name)
    ck = ("$local", id(node))
    info = self.globcache.setdefault(ck, info)
    st.env["$cap"] = TRUE
    st.env[node.name] = FnV(info, st.cur)
    return [(st, None)]

  def st_ClassDef(self, node, st):
    st.env[node.name] = self.fresh(st, self.site(st, node, "class"))
    return [(st, None)]

  def st_Return(self, node, st):
    if node.value is None:
      return [(st, Sig("return", NONE))]
    return [(s, v if isinstance(v, Sig) else Sig("return", v))
            for s, v in self.ev(node.value, st)]

  def st_Break(self, node, st):
    return [(st, Sig("break"))]

  def st_Continue(self, node, st):
    return [(st, Sig("continue"))]

  def st_Raise(self, node, st):
    if node.exc is None:
      return [(st, Sig("raise", st.exc if st.exc is not None else ExcV("?", NONE)))]
    out = []
    for s, v in self.ev(node.exc, st):
      if isinstance(v, Sig):
        out.append((s, v))
        continue
      v = self.resolve(s, v)
      if isinstance(v, ExcV):
        e = v
      elif isinstance(v, ClsV):
        e = ExcV(v.klass.qual, NONE)
      elif isinstance(v, Ext):
        e = ExcV(v.name, NONE)
      else:
        e = ExcV("?", NONE)
      s.note(self.where(s, node), "raise %s" % e.cls)
      out.append((s, Sig("raise", e)))
    return out

  def st_Assert(self, node, st):
    out = []
    for s, v in self.ev(node.test, st):
      if isinstance(v, Sig):
        out.append((s, v))
        continue
      for s2, t in self.truth(s, v, node.test):
        if t:
          out.append((s2, None))
        else:
          s2.note(self.where(s2, node), "assertion fails")
          out.append((s2, Sig("raise", ExcV("AssertionError", NONE))))
    return out

  def st_Assign(self, node, st):
    out = []
    for s, v in self.ev(node.value, st):
      if isinstance(v, Sig):
        out.append((s, v))
        continue
      acc = [(s, None)]
      for t in node.targets:
        nxt = []
        for s2, sg in acc:
          if sg is not None:
            nxt.append((s2, sg))
          else:
            nxt.extend(self.assign(t, v, s2))
        acc = nxt
      out.extend(acc)
    return out

  def st_AnnAssign(self, node, st):
    if node.value is None:
      return [(st, None)]
    out = []
    for s, v in self.ev(node.value, st):
      if isinstance(v, Sig):
        out.append((s, v))
      else:
        out.extend(self.assign(node.target, v, s))
    return out

  def st_AugAssign(self, node, st):
    load = self._as_load(node.target)
    out = []
    for s, vals in self.ev_list([load, node.value], st):
      if isinstance(vals, Sig):
        out.append((s, vals))
        continue
      a = self.resolve(s, vals[0])
      if isinstance(node.op, ast.Add) and isinstance(a, Ref) and isinstance(s.heap.get(a), Lst):
        for s2, r in self.call(s, BM(a, "extend"), [vals[1]], {}, node):
          out.append((s2, r if isinstance(r, Sig) else None))
        continue
      setop = None
      if isinstance(a, Ref) and isinstance(s.heap.get(a), Lst):
        setop = self.set_items(s, node.op, a, self.resolve(s, vals[1]))
      if setop is not None:
        s.heap[a] = Lst(setop, s.heap[a].meta)
        self.plugin.on_list_add(s, a, setop, node)
        out.append((s, None))
        continue
      for s2, r in self.binop(s, node.op, vals[0], vals[1], node):
        if isinstance(r, Sig):
          out.append((s2, r))
        else:
          out.extend(self.assign(node.target, r, s2))
    return out

  _loadcache = {}

  def _as_load(self, t):
    r = self._loadcache.get(id(t))
    if r is None:
      if isinstance(t, ast.Name):
        r = ast.Name(id=t.id, ctx=ast.Load())
      elif isinstance(t, ast.Attribute):
        r = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
      elif isinstance(t, ast.Subscript):
        r = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
      ast.copy_location(r, t)
      self._loadcache[id(t)] = r
      r._keep = t
    return r

  def assign(self, t, v, st):
    """-> list of (state, None|Sig)"""
    if isinstance(t, ast.Name):
      g = st.env.get("$globals")
      st.env[t.id] = v
      return [(st, None)]
    if isinstance(t, (ast.Tuple, ast.List)):
      v = self.resolve(st, v)
      n = len(t.elts)
      items = None
      if isinstance(v, Tup):
        items = list(v.items)
      elif isinstance(v, Ref) and isinstance(st.heap.get(v), Lst):
        items = list(st.heap[v].items)
      stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if items is not None and not any(isinstance(x, Many) for x in items) and not stars:
        if len(items) != n:
          return [(st, Sig("raise", ExcV("ValueError", NONE)))]
        vals = items
      elif stars and items is not None and not any(isinstance(x, Many) for x in items):
        i = stars[0]
        tail = n - i - 1
        mid = items[i:len(items) - tail]
        r = self._mklist(st, t, mid, "star")
        vals = items[:i] + [r] + items[len(items) - tail:]
      else:
        vals = [U(("unpack", v, i)) for i in range(n)]
      acc = [(st, None)]
      for e, x in zip(t.elts, vals):
        nxt = []
        for s, sg in acc:
          if sg is not None:
            nxt.append((s, sg))
          else:
            nxt.extend(self.assign(e.value if isinstance(e, ast.Starred) else e, x, s))
        acc = nxt
      return acc
    if isinstance(t, ast.Attribute):
      out = []
      for s, b in self.ev(t.value, st):
        if isinstance(b, Sig):
          out.append((s, b))
          continue
        r = self.set_attr(s, b, t.attr, v, t)
        out.extend(r if r is not None else [(s, None)])
      return out
    if isinstance(t, ast.Subscript):
      out = []
      for s, b in self.ev(t.value, st):
        if isinstance(b, Sig):
          out.append((s, b))
          continue
        for s2, i in self.ev_index(t.slice, s):
          if isinstance(i, Sig):
            out.append((s2, i))
            continue
          r = self.set_sub(s2, b, i, v, t)
          out.extend(r if r is not None else [(s2, None)])
      return out
    if isinstance(t, ast.Starred):
      return self.assign(t.value, v, st)
    raise AnalysisError("assign target %s" % type(t).__name__)

  def set_attr(self, st, b, name, v, node):
    b = self.resolve(st, b)
    r = self.plugin.on_setattr(st, b, name, v, node)
    if r is not None:
      return r
    if isinstance(b, Ref) and isinstance(st.heap.get(b), Inst):
      o = st.heap[b]
      if isinstance(o.klass, Klass):
        a = dict(o.attrs)
        a[name] = v
        st.heap[b] = Inst(o.klass, a)
        return None
      a = dict(o.attrs)
      a[name] = v
      st.heap[b] = Inst(o.klass, a)
      return None
    if isinstance(b, U):
      st.uattr[(b, name)] = v
      # forget facts about the old attribute value
      old = U(("attr", b, name))
      self.forget(st, old)
    return None

  def forget(self, st, old):
    def mentions(k):
      return any(x == old for x in iter_vals(k))
    st.truth = {k: t for k, t in st.truth.items() if not mentions(k)}
    st.dom = {k: t for k, t in st.dom.items() if not mentions(k)}

  def set_sub(self, st, b, i, v, node):
    b = self.resolve(st, b)
    i = self.resolve(st, i)
    r = self.plugin.on_set_subscript(st, b, i, v, node)
    if r is not None:
      return r
    o = st.heap.get(b) if isinstance(b, Ref) else None
    if isinstance(o, Dct):
      d = dict(o.items)
      d[i] = v
      op = o.open
      if not self.is_const(i):
        op = True
        d = {k: x for k, x in d.items() if self.is_const(k)}
      st.heap[b] = Dct(d, op)
    elif isinstance(o, Lst):
      if isinstance(i, C) and not any(isinstance(x, Many) for x in o.items) and isinstance(i.v, int) and -len(o.items) <= i.v < len(o.items):
        l = list(o.items)
        l[i.v] = v
        st.heap[b] = Lst(l, o.meta)
      elif isinstance(i, U) and i.key[0] == "slice" and i.key[1:] == (NONE, NONE, NONE):
        items = self.expand(st, v)
        st.heap[b] = Lst(items, o.meta)
        self.plugin.on_list_add(st, b, items, node)
      elif isinstance(i, U) and i.key[0] == "slice" and i.key[3] == NONE and all(
          isinstance(x, C) and (x.v is None or isinstance(x.v, int)) for x in i.key[1:3]) and \
          not any(isinstance(x, Many) for x in o.items) and isinstance(self.resolve(st, v), (Ref, Tup)):
        items = self.expand(st, v)
        l = list(o.items)
        l[i.key[1].v:i.key[2].v] = items
        st.heap[b] = Lst(l, o.meta)
        self.plugin.on_list_add(st, b, items, node)
      else:
        st.heap[b] = Lst([x if isinstance(x, Many) else Many(x) for x in o.items] + [Many(v)], o.meta)
    return None

  def st_Delete(self, node, st):
    acc = [(st, None)]
    for t in node.targets:
      nxt = []
      for s, sg in acc:
        if sg is not None:
          nxt.append((s, sg))
          continue
        if isinstance(t, ast.Name):
          s.env.pop(t.id, None)
          nxt.append((s, None))
        elif isinstance(t, ast.Subscript):
          for s2, b in self.ev(t.value, s):
            if isinstance(b, Sig):
              nxt.append((s2, b))
              continue
            for s3, i in self.ev_index(t.slice, s2):
              if isinstance(i, Sig):
                nxt.append((s3, i))
                continue
              r = self.plugin.on_del_subscript(s3, b, i, node)
              if r is not None:
                nxt.extend(r)
                continue
              o = s3.heap.get(b) if isinstance(b, Ref) else None
              if isinstance(o, Dct):
                d = dict(o.items)
                d.pop(i, None)
                s3.heap[b] = Dct(d, o.open)
              elif isinstance(o, Lst) and isinstance(i, C) and not any(isinstance(x, Many) for x in o.items):
                l = list(o.items)
                try:
                  del l[i.v]
                except IndexError:
                  nxt.append((s3, Sig("raise", ExcV("IndexError", NONE))))
                  continue
                s3.heap[b] = Lst(l, o.meta)
              elif isinstance(o, Lst):
                s3.heap[b] = Lst([x if isinstance(x, Many) else Many(x) for x in o.items], o.meta)
              nxt.append((s3, None))
        else:
          nxt.append((s, None))
      acc = nxt
    return acc

  def st_If(self, node, st):
    vb = version_branch(node.test)
    if vb is not None:
      return self.block(node.body if vb else node.orelse, st)
    out = []
    for s, v in self.ev(node.test, st):
      if isinstance(v, Sig):
        out.append((s, v))
        continue
      for s2, t in self.truth(s, v, node.test):
        body = node.body if t else node.orelse
        if body:
          out.extend(self.block(body, s2))
        else:
          out.append((s2, None))
    return out

  # loops -----------------------------------------------------------------

  def _loop(self, node, entry, step, body, orelse):
    """Generic loop.  step(state) -> list of (state, 'enter'|'exit'|Sig)."""
    out = []
    seen = {}
    widen = {}
    work = [(s, None) for s in entry]
    rounds = 0
    edges = {}
    while work:
      s, tag = work.pop(0)
      if rounds > 4000:
        if os.environ.get("SA_DEBUG"):
          for k in list(seen)[-3:]:
            print("HEAD", len(seen[k]["set"]), str(k)[:3000])
        raise AnalysisError("loop does not converge at %s" % self.where(s, node))
      if not self.plugin.CONCRETE:
        self.trim(s, node, True)
        self.widen_ints(s, widen, node)
      self.plugin.on_loop_head(s, node)
      self.canon(s)
      ck = s.corekey()
      fk = s.factkey()
      variants = seen.setdefault(ck, {"set": set(), "join": None})
      if variants["join"] is not None:
        hid = (ck, "join")
        probe = variants["join"].copy()
        changed = probe.join_facts(s)
        if tag is not None:
          edges.setdefault(tag, {})[hid] = s
        if not changed:
          continue
        variants["join"] = probe
        s = probe.copy()
      else:
        hid = (ck, fk)
        if tag is not None:
          edges.setdefault(tag, {})[hid] = s
        if fk in variants["set"]:
          continue
        # subsumed by a weaker variant?
        variants["set"].add(fk)
        if len(variants["set"]) > self.LOOP_VARIANTS:
          variants["join"] = s.copy()
      rounds += 1
      mark = self.plugin.loop_mark(s, node) if hasattr(self.plugin, "loop_mark") else None
      for s2, what in step(s):
        if isinstance(what, Sig):
          out.append((s2, what))
        elif what == "exit":
          self.plugin.on_loop_exit(s2, node)
          if orelse:
            out.extend(self.block(orelse, s2))
          else:
            out.append((s2, None))
        else:
          for s3, sig in body(s2):
            if sig is None or sig.kind == "continue":
              stuck = self.plugin.on_back_edge(s3, node, mark)
              work.append((s3, hid if stuck else None))
            elif sig.kind == "break":
              self.plugin.on_loop_exit(s3, node)
              out.append((s3, None))
            else:
              out.append((s3, sig))
    cyc = find_cycle(edges)
    if cyc is not None:
      self.plugin.on_stuck(cyc, node)
    return out

  def widen_ints(self, st, widen, node):
    env = st.env
    for k, v in list(env.items()):
      if k.startswith("$"):
        continue
      if isinstance(v, C) and isinstance(v.v, int) and not isinstance(v.v, bool):
        ss = widen.setdefault(k, set())
        ss.add(v.v)
        if len(ss) > self.INT_WIDEN:
          pos = v.v > 0 and self.only_grows(node, k)
          env[k] = U(("widen", self.site(st, node), k) + (("pos",) if pos else ()))
      elif isinstance(v, U) and v.key[0] in ("bin",) and k in widen and len(widen[k]) > self.INT_WIDEN:
        pos = positive(v) and self.only_grows(node, k)
        env[k] = U(("widen", self.site(st, node), k) + (("pos",) if pos else ()))
      elif isinstance(v, U) and v.key[0] in ("bin", "mcall", "fstr", "join"):
        ss = widen.setdefault(("u", k), set())
        ss.add(v)
        if len(ss) > self.INT_WIDEN:
          env[k] = U(("widen", self.site(st, node), k))
      if isinstance(env[k], U) and env[k].key[0] == "widen":
        # a widened variable denotes a new value each round
        old = env[k]
        self.forget(st, old)
    # exact lists growing: fold
    for r, o in list(st.heap.items()):
      if isinstance(o, Lst) and len(o.items) > 6:
        folded = self.fold_list(st, r, o)
        if folded is not None:
          st.heap[r] = folded

  def only_grows(self, node, name):
    """Every store to `name` in the loop adds a positive constant to it."""
    for n in ast.walk(node):
      if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
        p = getattr(n, "_parent", None)
        if not (isinstance(p, ast.AugAssign) and p.target is n and isinstance(p.op, ast.Add)
                and isinstance(p.value, ast.Constant) and isinstance(p.value.value, int)
                and p.value.value > 0):
          return False
      elif isinstance(n, (ast.Nonlocal, ast.Global)):
        return False
    return True

  def fold_list(self, st, r, o):
    if hasattr(self.plugin, "fold_list"):
      res = self.plugin.fold_list(st, r, o)
      if res is not None:
        return res
    items = []
    for x in o.items:
      y = x if isinstance(x, Many) else Many(x)
      if y not in items:
        items.append(y)
    if len(items) > 6:
      if all(isinstance(i.v, (C, E)) for i in items):
        return None
      items = [Many(U(("elem", r)))]
    return Lst(items, o.meta)

  def st_While(self, node, st):
    def step(s):
      res = []
      for s2, v in self.ev(node.test, s):
        if isinstance(v, Sig):
          res.append((s2, v))
          continue
        for s3, t in self.truth(s2, v, node.test):
          res.append((s3, "enter" if t else "exit"))
      return res
    return self._loop(node, [st], step, lambda s: self.block(node.body, s), node.orelse)

  def st_For(self, node, st):
    out = []
    for s, itv in self.ev(node.iter, st):
      if isinstance(itv, Sig):
        out.append((s, itv))
        continue
      itv = self.resolve(s, itv)
      if isinstance(itv, GenV):
        out.extend(self.for_gen(node, s, itv))
        continue
      segs = self.segments(s, itv, node)
      out.extend(self.for_segs(node, s, segs))
    return out

  def for_segs(self, node, st, segs):
    pend = [st]
    out = []
    fin = []       # states after break
    for kind, v in segs:
      if kind == "one":
        nxt = []
        for s in pend:
          for s2, sg in self.assign(node.target, v, s):
            if sg is not None:
              out.append((s2, sg))
              continue
            for s3, sig in self.block(node.body, s2):
              if sig is None or sig.kind == "continue":
                nxt.append((s3, None))
              elif sig.kind == "break":
                fin.append(s3)
              else:
                out.append((s3, sig))
        pend = [s for s, _ in self.reduce(nxt)]
      else:
        exits = []

        def step(s, v=v):
          s2 = s.copy()
          res = [(s, "exit")]
          val = v(s2)
          if val is None:
            return res
          for s3, sg in self.assign(node.target, val, s2):
            res.append((s3, "enter" if sg is None else sg))
          return res
        nxt = []
        brk = []

        def body(s):
          res = []
          for s3, sig in self.block(node.body, s):
            if sig is not None and sig.kind == "break":
              brk.append(s3)
            else:
              res.append((s3, sig))
          return res
        for s in pend:
          for s2, sig in self._loop(node, [s], step, body, None):
            if sig is None:
              nxt.append((s2, None))
            else:
              out.append((s2, sig))
        fin.extend(brk)
        pend = [s for s, _ in self.reduce(nxt)]
    for s in pend:
      if node.orelse:
        out.extend(self.block(node.orelse, s))
      else:
        out.append((s, None))
    out.extend((s, None) for s in fin)
    return out

  def for_gen(self, node, st, gen):
    """for x in generator(): inline the generator, loop body at each yield."""
    caller = st.cur
    cdepth = len(self.gen_handlers)

    def handler(s, v):
      gfid = s.cur
      gdepth, gstack = s.depth, s.stack
      s.cur = caller
      saved = self.gen_handlers
      self.gen_handlers = saved[:cdepth]
      out = []
      try:
        for s2, sg in self.assign(node.target, v, s):
          if sg is not None:
            out.append((s2, sg))
            continue
          for s3, sig in self.block(node.body, s2):
            if sig is None or sig.kind == "continue":
              s3.cur = gfid
              s3.depth, s3.stack = gdepth, gstack
              out.append((s3, NONE))
            elif sig.kind == "break":
              s3.cur = gfid
              s3.depth, s3.stack = gdepth, gstack
              out.append((s3, Sig("genbreak")))
            elif sig.kind == "return":
              s3.cur = gfid
              s3.depth, s3.stack = gdepth, gstack
              out.append((s3, Sig("genreturn", sig.val)))
            elif sig.kind == "raise":
              s3.cur = gfid
              s3.depth, s3.stack = gdepth, gstack
              out.append((s3, Sig("genraise", sig.val)))
            else:
              s3.cur = gfid
              s3.depth, s3.stack = gdepth, gstack
              out.append((s3, sig))
      finally:
        self.gen_handlers = saved
      return out
    out = []
    self.gen_handlers.append(handler)
    try:
      res = self.inline(st, gen.fn, list(gen.args), dict(gen.kwargs), node)
    finally:
      self.gen_handlers.pop()
    for s, v in res:
      if isinstance(v, Sig):
        if v.kind == "genbreak":
          out.append((s, None))
        elif v.kind == "genreturn":
          out.append((s, Sig("return", v.val)))
        elif v.kind == "genraise":
          out.append((s, Sig("raise", v.val)))
        else:
          out.append((s, v))
      else:
        if node.orelse:
          out.extend(self.block(node.orelse, s))
        else:
          out.append((s, None))
    return out

  # try / with -------------------------------------------------------------

  def st_Try(self, node, st):
    out = []
    has_handlers = bool(node.handlers)
    st.tryd += 1 if (has_handlers or node.finalbody) else 0
    dec = 1 if (has_handlers or node.finalbody) else 0
    results = []
    for s, sig in self.block(node.body, st):
      s.tryd -= dec
      if sig is None:
        if node.orelse:
          results.extend(self.block(node.orelse, s))
        else:
          results.append((s, None))
      elif sig.kind == "raise" and has_handlers:
        results.extend(self.handle(node, s, sig))
      else:
        results.append((s, sig))
    if not node.finalbody:
      return results
    for s, sig in results:
      for s2, fs in self.block(node.finalbody, s):
        out.append((s2, fs if fs is not None else sig))
    return out

  def handler_types(self, st, h):
    if h.type is None:
      return ["BaseException"]
    t = h.type
    elts = t.elts if isinstance(t, ast.Tuple) else [t]
    names = []
    for e in elts:
      ent = self.model.resolve_expr(self.mod(st), e)
      if isinstance(ent, Klass):
        names.append(ent.qual)
      elif isinstance(e, ast.Name) and e.id in st.env and isinstance(st.env[e.id], ClsV):
        names.append(st.env[e.id].klass.qual)
      else:
        names.append(dotted(e) or "?")
    return names

  def handle(self, node, st, sig):
    exc = sig.val if sig.val is not None else ExcV("?", NONE)
    out = []
    bases = exc_bases(self.model, exc.cls)
    pend = [st]
    for h in node.handlers:
      types = self.handler_types(st, h)
      if exc.cls == "?":
        must = any(t in ("BaseException", "Exception") for t in types)
        may = True
      else:
        must = any(t in bases for t in types)
        may = must
      if not may:
        continue
      nxt = []
      for s in pend:
        if not must:
          nxt.append(s.copy())
        s.note(self.where(s, h), "exception handler entered (%s)" % exc.cls)
        saved = s.exc
        ex = exc if exc.cls != "?" else ExcV(types[0] if len(types) == 1 and not must else "?", NONE)
        s.exc = ex
        if h.name:
          s.env[h.name] = ex
        for s2, sg in self.block(h.body, s):
          s2.exc = saved
          out.append((s2, sg))
      pend = nxt
      if must:
        break
    for s in pend:
      out.append((s, sig))
    return out

  def st_With(self, node, st):
    return self._with(node, node.items, st)

  def _with(self, node, items, st):
    if not items:
      return self.block(node.body, st)
    it = items[0]
    out = []
    for s, v in self.ev(it.context_expr, st):
      if isinstance(v, Sig):
        out.append((s, v))
        continue
      v = self.resolve(s, v)
      if isinstance(v, GenV):
        out.extend(self.with_gen(node, items, s, v))
        continue
      r = self.plugin.on_with(s, v, node, lambda s2: self._with(node, items[1:], s2))
      if r is not None:
        out.extend(r)
        continue
      acc = [(s, None)]
      if it.optional_vars is not None:
        acc = self.assign(it.optional_vars, v, s)
      for s2, sg in acc:
        if sg is not None:
          out.append((s2, sg))
        else:
          out.extend(self._with(node, items[1:], s2))
    return out

  def with_gen(self, node, items, st, gen):
    caller = st.cur
    cdepth = len(self.gen_handlers)
    it = items[0]

    def handler(s, v):
      gfid = s.cur
      gdepth, gstack = s.depth, s.stack
      s.cur = caller
      saved = self.gen_handlers
      self.gen_handlers = saved[:cdepth]
      out = []
      try:
        acc = [(s, None)]
        if it.optional_vars is not None:
          acc = self.assign(it.optional_vars, v, s)
        for s2, sg in acc:
          if sg is not None:
            out.append((s2, sg))
            continue
          for s3, sig in self._with(node, items[1:], s2):
            s3.cur = gfid
            s3.depth, s3.stack = gdepth, gstack
            if sig is None:
              out.append((s3, NONE))
            elif sig.kind == "raise":
              out.append((s3, sig))
            else:
              # leave the block after running the rest of the manager: keep the
              # pending signal in the generator frame
              s3.env["$pending"] = C((sig.kind,)) if sig.val is None else Tup((C(sig.kind), sig.val))
              out.append((s3, NONE))
      finally:
        self.gen_handlers = saved
      return out
    self.gen_handlers.append(handler)
    pend_res = []
    try:
      res = self.inline_keep(st, gen.fn, list(gen.args), dict(gen.kwargs), node)
    finally:
      self.gen_handlers.pop()
    out = []
    for s, v, pending in res:
      if isinstance(v, Sig):
        out.append((s, v))
      elif pending is not None:
        if isinstance(pending, Tup):
          out.append((s, Sig(pending.items[0].v, pending.items[1])))
        else:
          out.append((s, Sig(pending.v[0])))
      else:
        out.append((s, None))
    return out

  def inline_keep(self, st, f, args, kwargs, node):
    info = f.info
    env = self.bind_args(st, info, args, kwargs, node)
    if env is None:
      return [(s, v, None) for s, v in self.bad_args(st, info, args, kwargs, node)]
    self.fn_seen.add(info.qual)
    env["$mod"] = ModV(info.mod)
    env["$fn"] = f
    caller = st.cur
    fid = self.new_frame(st)
    st.frames[fid] = env
    st.cur = fid
    st.depth += 1
    st.stack = st.stack + (info.qual,)
    out = []
    for s, sig in self.block(info.node.body, st):
      pending = s.frames[fid].get("$pending")
      v = NONE
      if isinstance(sig, Sig) and sig.kind != "return":
        v = sig
      del s.frames[fid]
      s.cur = caller
      s.depth -= 1
      s.stack = s.stack[:-1]
      out.append((s, v, pending))
    return out

  # ------------------------------------------------------------ entry

  def run_function(self, info, args, kwargs=None, setup=None, st=None):
    """Analyse one function as an entry point.
    -> list of (state, value | Sig)."""
    if st is None:
      st = State()
      st.p = self.plugin.initial()
    root = self.new_frame(st)
    st.frames[root] = {"$mod": ModV(info.mod)}
    st.cur = root
    if setup:
      args, kwargs = setup(st)
    return self.inline(st, FnV(info, None), list(args), kwargs or {}, info.node)


def show(v, depth=0):
  """Human-readable rendering of a value."""
  if depth > 5:
    return "…"
  f = lambda x: show(x, depth + 1) if isinstance(x, Val) else str(x)
  if isinstance(v, C):
    return repr(v.v)
  if isinstance(v, E):
    return v.cls.split(".")[-1] + "." + v.name
  if isinstance(v, Tup):
    return "(" + ", ".join(f(x) for x in v.items[:6]) + ")"
  if isinstance(v, Ref):
    return "obj@%s" % (v.k[0][1] if len(v.k[0]) > 1 else "?")
  if isinstance(v, FnV):
    return v.info.qual.split(".")[-1]
  if isinstance(v, Bound):
    return f(v.fn)
  if isinstance(v, ClsV):
    return v.klass.name
  if isinstance(v, Ext):
    return v.name
  if isinstance(v, ModV):
    return v.mod.name
  if isinstance(v, BM):
    return f(v.base) + "." + v.name
  if isinstance(v, U):
    k = v.key
    if k[0] == "attr":
      return f(k[1]) + "." + str(k[2])
    if k[0] == "tok":
      return "token[%s]" % (k[1],)
    if k[0] in ("eq", "lt", "in"):
      op = {"eq": "==", "lt": "<", "in": "in"}[k[0]]
      return "%s %s %s" % (f(k[1]), op, f(k[2]))
    if k[0] == "isinst":
      return "isinstance(%s,%s)" % (f(k[1]), f(k[2]))
    if k[0] == "call":
      return f(k[1]) + "(" + ",".join(f(x) for x in k[2:]) + ")"
    if k[0] == "mcall":
      return f(k[1]) + "." + str(k[2]) + "(…)"
    if k[0] == "fresh":
      return "value@%s" % (k[1][1] if len(k[1]) > 1 else "?")
    if k[0] in ("arg", "glob"):
      return str(k[-1])
    if k[0] == "nonempty":
      return "nonempty(%s)" % f(k[1])
    if k[0] == "sub":
      return "%s[%s]" % (f(k[1]), f(k[2]))
    return k[0] + "(" + ",".join(f(x) for x in k[1:]) + ")"
  return str(v)
