"""C17: formatting a file is a function of its text, configuration and grammar.

A points-to analysis of the whole package finds every operation which may
change an object that exists since import (module tables, class attributes,
default values of parameters, results of memoized functions), every rebinding
of a global, and every iteration over an unordered set which has an effect
that depends on the order.  Sources of values that differ from run to run may
not be used by code that reads, formats or analyses a file."""
import ast

from ..alias import Alias, bits, own, CACHES
from ..model import FunctionInfo, Klass, dotted
from .c22 import tools

FMT = "cmakelang.format.__main__"
LINT = "cmakelang.lint.__main__"

ORDERED_CALLS = {"append", "extend", "insert", "write", "writelines", "print", "info", "warning", "error",
                 "critical", "exception", "log", "record_lint", "appendleft", "put", "send"}
UNORDERED = {"sorted", "set", "frozenset", "len", "any", "all", "sum", "min", "max", "bool", "isinstance",
             "update", "union", "difference", "intersection", "issubset", "issuperset", "discard", "add",
             "difference_update", "intersection_update", "symmetric_difference", "isdisjoint", "Counter", "id",
             "hash", "type", "copy", "deepcopy"}
ORDERING = {"list", "tuple", "enumerate", "zip", "map", "filter", "iter", "next", "join", "extend", "reversed",
            "chain", "islice", "OrderedDict", "fromkeys", "deque", "repr", "str", "format"}
RUNTIME = ("time.", "random.", "uuid.", "secrets.", "datetime.datetime.now", "datetime.datetime.today",
           "datetime.date.today", "datetime.datetime.utcnow", "os.environ", "os.getenv", "os.getpid", "os.urandom",
           "os.getlogin", "platform.", "socket.", "getpass.", "locale.", "os.times", "os.getloadavg", "os.cpu_count",
           "os.getcwd", "os.getcwdb", "sys.getrefcount", "gc.")
LISTINGS = ("os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob")
# deciding which config file applies, opening standard streams and creating
# temporary files are the programs' own business
PROGRAM_LEVEL = ("cmakelang.contrib", "cmakelang.tools")


def is_set(a, mask):
  return any(a.sites[b].kind == "set" for b in bits(mask))


def names(e):
  return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class C17:

  def __init__(self, ctx):
    self.ctx = ctx
    self.model = ctx.model
    self.a = Alias(ctx.model)
    a = self.a
    ctx.count("functions", len(a.units))
    ctx.count("allocation_sites", len(a.sites))
    ctx.count("persistent_objects", sum(1 for s in a.sites if s.persistent and s.kind in (
        "list", "dict", "set", "defaultdict", "deque", "inst", "iter", "gen", "?")))
    ctx.count("mutations", len(a.mutations))
    mods = {FMT, LINT} | set(tools(ctx.model))
    roots = [u.qual for u in a.units.values() if u.mod.name in mods and not u.top]
    self.live = a.reachable(roots)
    # methods called through an unknown receiver, properties and operators
    for u in a.units.values():
      if isinstance(u.node, ast.FunctionDef) and u.node.name.startswith("__") and u.outer is not None \
          and isinstance(u.outer.node, ast.ClassDef) and u.node.name not in ("__init__", "__new__"):
        self.live |= a.reachable([u.qual])
    # the constructor of a class runs at import or at run time
    ctx.count("functions_reached", len(self.live))
    self.reported = set()

  # ------------------------------------------------------------ persistent

  def initialising(self, u, mask):
    """self within a constructor: the object is new."""
    if not (isinstance(u.node, ast.FunctionDef) and u.node.name in ("__init__", "__new__", "__set_name__")):
      return False
    return True

  def self_mutation(self, u, node):
    t = node
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
      pos = u.node.args.posonlyargs + u.node.args.args
      return bool(pos) and t.value.id == pos[0].arg
    if isinstance(t, ast.Call) and dotted(t.func) == "setattr" and t.args and isinstance(t.args[0], ast.Name):
      pos = u.node.args.posonlyargs + u.node.args.args
      return bool(pos) and t.args[0].id == pos[0].arg
    return False

  def persistent(self):
    a = self.a
    for key, (u, node, what, mask) in sorted(a.mutations.items(), key=lambda x: str(x[0])):
      self.ctx.count("mutations_judged")
      if u.top or u.qual not in self.live:
        continue
      if self.initialising(u, mask) and self.self_mutation(u, node):
        continue
      hit = [a.sites[b] for b in bits(mask) if a.sites[b].persistent and a.sites[b].kind not in ("fn",)
             and not (a.sites[b].memo is not None and self.within(u, a.sites[b].memo))]
      if not hit:
        continue
      if self.memo(u, node, what, mask):
        self.ctx.count("memo_tables")
        continue
      s = hit[0]
      if s.kind == "class" and self.initialising(u, mask):
        pass
      self.ctx.violation(
          "shared-state", "%s %s of %s" % (u.qual, what, s.desc), "%s:%d" % (u.mod.relpath, node.lineno),
          "%s changes an object which outlives the file being processed: %s (created at %s)%s" % (
              ast.unparse(node)[:60].replace("\n", " "), s.desc, s.where,
              ", and %d more" % (len(hit) - 1) if len(hit) > 1 else ""))

  def within(self, u, memo):
    """The function runs only as part of the memoized one."""
    part = self.a.reachable([memo.qual])
    return u.qual in part and (u is memo or all(
        q in part for q, cs in self.a.calls.items() if u.qual in cs and q != memo.qual))

  def memo(self, u, node, what, mask):
    """table[key] = value where the value is computed from the key alone, and
    nothing else changes the table."""
    if what == "global assignment":
      return self.lazy_constant(u, node)
    if what != "item assignment" or not isinstance(node, ast.Subscript):
      return False
    for key, (u2, n2, w2, m2) in self.a.mutations.items():
      if m2 & mask and n2 is not node and not u2.top:
        return False
    st = node
    while not isinstance(st, ast.stmt):
      st = st._parent
    if not isinstance(st, ast.Assign):
      return False
    keynames = names(self.expand(u, node.slice))
    return self.pure_of(u, st.value, keynames)

  def expand(self, u, e, depth=0):
    return e

  def pure_of(self, u, e, keynames, depth=0):
    """The expression depends on the given names and on code alone."""
    if depth > 6:
      return False
    for n in ast.walk(e):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        if n.id in keynames:
          continue
        if n.id in u.binds:
          vals = self.assigned(u, n.id)
          if vals is None or not all(self.pure_of(u, v, keynames, depth + 1) for v in vals):
            return False
          continue
        ent = self.model.resolve_name(u.mod, n.id)
        if isinstance(ent, tuple) and ent[0] == "var":
          return False
    return True

  def assigned(self, u, name):
    out = []
    pars = u.node.args if isinstance(u.node, (ast.FunctionDef, ast.Lambda)) else None
    if pars is not None and any(p.arg == name for p in pars.posonlyargs + pars.args + pars.kwonlyargs + [
        x for x in (pars.vararg, pars.kwarg) if x]):
      return None
    for n in own(u.node):
      if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
        out.append(n.value)
      elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and not isinstance(
          n._parent, ast.Assign):
        return None
    return out or None

  def lazy_constant(self, u, node):
    """`global X; X = <expression of code alone>`, provided nothing changes the
    object afterwards."""
    st = node
    while not isinstance(st, ast.stmt):
      st = st._parent
    if not isinstance(st, ast.Assign) or not self.pure_of(u, st.value, set()):
      return False
    a = self.a
    a.u = u
    objs = a.ev(st.value)
    for key, (u2, n2, w2, m2) in a.mutations.items():
      if m2 & objs and w2 != "global assignment" and not self.builds(u2, n2, st.value):
        return False
    return True

  def builds(self, u, node, value):
    """The change is part of building the value: made by the functions which
    create it, on an object they just made."""
    names_ = {q for q in self.a.reachable([x for x in self.called(value)])}
    if u.qual not in names_:
      return False
    callers = {q for q, cs in self.a.calls.items() if u.qual in cs}
    return callers <= names_ | {self.a.units[id(x)].qual for x in ()} or len(callers) <= 1

  def called(self, e):
    for n in ast.walk(e):
      if isinstance(n, ast.Call):
        for u in self.a.units.values():
          if isinstance(u.node, ast.FunctionDef) and dotted(n.func) and \
              u.qual.endswith("." + dotted(n.func).split(".")[-1]):
            yield u.qual

  # ------------------------------------------------------------ memoization

  def memoized(self):
    a = self.a
    for u in a.units.values():
      if not any(d.rsplit(".", 1)[-1] in CACHES for d in a.decos(u)):
        continue
      self.ctx.count("memoized_functions")
      pars = u.node.args.posonlyargs + u.node.args.args
      for p in pars:
        m = a.V.get((u.qual, p.arg, p.lineno, p.col_offset), 0)
        bad = [a.sites[b] for b in bits(m) if a.sites[b].kind in ("inst", "list", "dict", "set", "?")]
        if bad:
          self.ctx.violation("memo-of-mutable", "%s(%s)" % (u.qual, p.arg), "%s:%d" % (u.mod.relpath, u.node.lineno),
                             "remembers results for %s, which may change between calls" % bad[0].desc)
          break

  # ------------------------------------------------------------ order

  def order(self):
    a = self.a
    for u in list(a.units.values()):
      a.u = u
      for n in own(u.node):
        if isinstance(n, ast.For):
          if is_set(a, a.ev(n.iter)):
            self.ctx.count("set_iterations")
            why = self.ordered_effect(n)
            if why:
              self.hash_order(u, n, why)
        elif isinstance(n, (ast.ListComp, ast.DictComp, ast.GeneratorExp)):
          for g in n.generators:
            if is_set(a, a.ev(g.iter)):
              self.ctx.count("set_iterations")
              if isinstance(n, ast.ListComp) or isinstance(n, ast.GeneratorExp):
                par = n._parent
                if isinstance(par, ast.Call) and n in par.args and self.consumer(par) in UNORDERED:
                  continue
                self.hash_order(u, n, "builds a sequence")
        elif isinstance(n, ast.Call):
          nm = self.consumer(n)
          for x in n.args:
            v = x.value if isinstance(x, ast.Starred) else x
            if is_set(a, a.ev(v)):
              self.ctx.count("set_iterations")
              keys = [k.value for k in n.keywords if k.arg == "key"]
              if nm in ("sorted", "min", "max") and keys and not (
                  isinstance(keys[0], ast.Lambda) and isinstance(keys[0].body, ast.Name)
                  or isinstance(keys[0], ast.Name) and keys[0].id in ("str", "repr")):
                self.hash_order(u, n, "leaves elements with the same key in that order")
                continue
              if nm in ORDERING or isinstance(x, ast.Starred):
                par = n._parent
                if isinstance(par, ast.Call) and n in par.args and self.consumer(par) in UNORDERED - {"add"}:
                  continue
                if nm in ("repr", "str", "format", "next"):
                  pass
                self.hash_order(u, n, "takes its elements in order")
          if isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args \
              and is_set(a, a.ev(n.func.value)):
            self.hash_order(u, n, "takes an arbitrary element")

  def consumer(self, call):
    d = dotted(call.func)
    if d:
      return d.rsplit(".", 1)[-1]
    return call.func.attr if isinstance(call.func, ast.Attribute) else ""

  def ordered_effect(self, loop):
    tnames = names(loop.target)
    inside = set()
    for s in loop.body:
      for x in ast.walk(s):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
          inside.add(x.id)
    for s in loop.body:
      for x in ast.walk(s):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
          return "yields in that order"
        if isinstance(x, ast.Call) and self.consumer(x) in ORDERED_CALLS and not (
            isinstance(x.func, ast.Attribute) and x.func.attr in ("insert",) and False):
          return "calls %s in that order" % self.consumer(x)
        if isinstance(x, ast.Return) and x.value is not None and names(x.value) & (tnames | inside):
          return "returns whichever comes first"
        if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and not isinstance(x.value, ast.Constant) \
            and names(x.value) & tnames and not self.numeric(x.value):
          return "concatenates in that order"
    brk = any(isinstance(x, ast.Break) for s in loop.body for x in ast.walk(s))
    if brk and tnames & self.used_after(loop):
      return "uses whichever comes first"
    return None

  def numeric(self, e):
    return isinstance(e, ast.Call) and dotted(e.func) in ("len", "int", "sum")

  def used_after(self, loop):
    fn = loop
    while not isinstance(fn, (ast.FunctionDef, ast.Module)):
      fn = fn._parent
    out = set()
    for x in ast.walk(fn):
      if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.lineno > loop.end_lineno:
        out.add(x.id)
    for s in loop.body:       # assigned before the break, read later
      for x in ast.walk(s):
        if isinstance(x, ast.Assign):
          for t in x.targets:
            if isinstance(t, ast.Name) and t.id in out:
              out |= names(x.value)
    return out

  def hash_order(self, u, n, why):
    if u.qual not in self.live and not u.top:
      return
    e = n.iter if isinstance(n, ast.For) else n
    self.ctx.violation("hash-order", "%s: %s" % (u.qual, ast.unparse(e)[:60].replace("\n", " ")),
                       "%s:%d" % (u.mod.relpath, n.lineno),
                       "iterates over a set and %s; the order differs from run to run" % why)

  # ------------------------------------------------------------ environment

  def environment(self):
    a = self.a
    mods = {m for m in (FMT, LINT)} | set(tools(self.model))
    for u in list(a.units.values()):
      a.u = u
      if u.mod.name.startswith(PROGRAM_LEVEL) or u.mod.name.endswith("gendocs"):
        continue
      for n in own(u.node):
        d = None
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load) and not (
            isinstance(getattr(n, "_parent", None), ast.Attribute)):
          ent = a.global_ent(n)
          if isinstance(ent, tuple) and ent[0] == "ext":
            d = ent[1]
        if d is None:
          continue
        self.ctx.count("external_names")
        if (d + ".").startswith(RUNTIME) or d in RUNTIME or any(d.startswith(r) for r in RUNTIME):
          if u.mod.name in mods and d.startswith("os.getcwd"):
            continue            # where to look for the config of standard input
          self.ctx.violation("environment", "%s: %s" % (u.qual, d), "%s:%d" % (u.mod.relpath, n.lineno),
                             "%s differs between runs" % d)
        elif d in LISTINGS:
          par = n._parent
          if isinstance(par, ast.Call):
            p2 = par._parent
            if isinstance(p2, ast.Call) and self.consumer(p2) in UNORDERED:
              continue
            self.ctx.violation("environment", "%s: %s" % (u.qual, d), "%s:%d" % (u.mod.relpath, n.lineno),
                               "the order of %s is arbitrary" % d)
        elif d in ("id", "hash"):
          par = n._parent
          if isinstance(par, ast.keyword) and par.arg == "key":
            self.ctx.violation("environment", "%s: key=%s" % (u.qual, d), "%s:%d" % (u.mod.relpath, n.lineno),
                               "orders by %s, which differs between runs" % d)
          if isinstance(par, ast.Call) and par.func is n:
            self.ctx.count("identities")
            if not self.identity_only(par):
              self.ctx.violation("environment", "%s: %s" % (u.qual, ast.unparse(par)), "%s:%d" % (
                  u.mod.relpath, n.lineno), "the value of %s differs between runs" % d)

  def identity_only(self, call, depth=0):
    p = call._parent
    if isinstance(p, ast.Compare):
      return all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in p.ops)
    if isinstance(p, ast.Subscript) and p.slice is call:
      return True
    if isinstance(p, ast.Dict) and call in p.keys:
      return True
    if isinstance(p, ast.DictComp) and p.key is call:
      return True
    if isinstance(p, (ast.SetComp, ast.Set)):
      return True
    if isinstance(p, ast.Call) and self.consumer(p) in ("add", "discard", "get", "pop", "remove", "setdefault"):
      return not p.args or p.args[0] is call
    if isinstance(p, ast.FunctionDef) or isinstance(p, ast.Return):
      fn = p
      while not isinstance(fn, ast.FunctionDef):
        fn = fn._parent
      return fn.name == "__hash__"
    if isinstance(p, ast.Tuple) and depth < 3:
      # the operands of a hash or a key
      return self.identity_only(p, depth + 1)
    if isinstance(p, ast.Call) and dotted(p.func) in ("hash", "set", "frozenset"):
      return True
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and depth < 3:
      fn = p
      while not isinstance(fn, (ast.FunctionDef, ast.Module)):
        fn = fn._parent
      return all(self.identity_only(x, depth + 1) for x in ast.walk(fn)
                 if isinstance(x, ast.Name) and x.id == p.targets[0].id and isinstance(x.ctx, ast.Load))
    if isinstance(p, ast.GeneratorExp) or isinstance(p, ast.ListComp):
      return isinstance(p._parent, ast.Call) and self.consumer(p._parent) in ("set", "frozenset")
    return False


def run(ctx):
  ctx.rule("no function that runs while a file is processed changes an object created at import, rebinds a "
           "global or class attribute, or changes what a memoized function returned")
  ctx.rule("no effect depends on the iteration order of a set")
  ctx.rule("no value that differs between runs (time, random, environment, identity, directory order) is used "
           "by the code that reads, formats or analyses files")
  ctx.assume("results of library functions are new objects unless they are one of their arguments' elements")
  ctx.assume("what setattr with a computed name stores on an object without configuration fields is supplied by "
             "the user")
  c = C17(ctx)
  c.persistent()
  c.memoized()
  c.order()
  c.environment()
  ctx.expect("functions", 400)
  ctx.expect("persistent_objects", 100)
  ctx.expect("mutations_judged", 300)
  ctx.expect("functions_reached", 200)
  ctx.expect("external_names", 100)
