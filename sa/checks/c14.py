"""C14: every option is acted upon and every listed value is handled.

For each option a configuration class declares, every expression of the
program which reads it is found (attribute chains, aliases of sections and of
values, computed names, parameters) and followed to what it decides.  For each
option with a list of values, the tests on the option are evaluated for every
value: no value may reach an error the code raises for unknown values, be
missing from a lookup table, or be indistinguishable from another value."""
import ast
import itertools

from ..alias import Alias
from ..confmodel import ConfModel
from ..flow import Flow, guards, enclosing, binds
from ..model import FunctionInfo, Klass, dotted
from .c22 import tools

FMT = "cmakelang.format.__main__"
LINT = "cmakelang.lint.__main__"
UTIL = "cmakelang.config_util"

# words spoken to the user, not acted upon
SPEECH = {"record_lint", "debug", "info", "warning", "warn", "error", "critical", "exception", "log", "print"}


class Unknown(Exception):
  pass


class C14:

  def __init__(self, ctx):
    self.ctx = ctx
    self.model = ctx.model
    self.conf = ConfModel(ctx.model)
    self.flow = Flow(ctx.model)
    self.alias = Alias(ctx.model)
    mods = {FMT, LINT} | set(tools(ctx.model))
    a = self.alias
    live = a.reachable([u.qual for u in a.units.values() if u.mod.name in mods and not u.top])
    for u in a.units.values():
      if isinstance(u.node, ast.FunctionDef) and u.node.name.startswith("__") and u.outer is not None \
          and isinstance(u.outer.node, ast.ClassDef):
        live |= a.reachable([u.qual])
    self.live = live
    self.unit_of = {id(u.node): u for u in a.units.values()}
    self.options = {}         # "section.name" -> Field
    self.by_name = {}
    for path, f in self.conf.paths():
      key = ".".join(path + (f.name,))
      self.options[key] = f
      self.by_name.setdefault(f.name, []).append(key)
      ctx.count("options")
    self.section_class = {}
    for name, sub, _ in self.conf.sections():
      if isinstance(sub, Klass):
        self.section_class[name] = sub
    self.section_of = {k.qual: n for n, k in self.section_class.items()}
    self.aliases = self.properties()
    self.reads = {}           # option -> [expr]
    self.memo = {}
    self.mention = {}
    self.bindings = {}
    self.locals = {}
    self.nodes = {}           # type -> [(module, node)]
    self.attrs = {}           # attribute name -> [load]
    for m in ctx.model.modules.values():
      for n in ast.walk(m.tree):
        self.nodes.setdefault(type(n), []).append((m, n))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
          self.attrs.setdefault(n.attr, []).append(n)
    self.derived = {}         # "section.attr" -> [(assign, method)]
    self.collect()

  # ------------------------------------------------------------ recognition

  def properties(self):
    """Properties of a section which just return an option: linewidth."""
    out = {}
    for sec, k in self.section_class.items():
      for nm, mem in k.members.items():
        if isinstance(mem, FunctionInfo) and mem.is_property:
          body = [s for s in mem.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
          if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) \
              and isinstance(body[0].value.value, ast.Name) and body[0].value.value.id == mem.params[0]:
            out["%s.%s" % (sec, nm)] = "%s.%s" % (sec, body[0].value.attr)
    return out

  def section(self, e, depth=0):
    """Name of the section an expression denotes."""
    if isinstance(e, ast.Attribute) and e.attr in self.section_class:
      return e.attr
    if isinstance(e, ast.Name) and depth < 4:
      fn = enclosing(e)
      if fn is None:
        return None
      k = getattr(fn, "_parent", None)
      if isinstance(k, ast.ClassDef) and fn.args.args and fn.args.args[0].arg == e.id:
        m = self.flow.module_of(e)
        return self.section_of.get("%s.%s" % (m.name, k.name)) if m else None
      vals = self.bound(fn, e.id)
      secs = {self.section(v, depth + 1) for v in vals} if vals else set()
      if len(secs) == 1:
        return secs.pop()
    return None

  def bound(self, fn, name):
    k = (id(fn), name)
    if k not in self.bindings:
      self.bindings[k] = self.bound_(fn, name)
    return self.bindings[k]

  def own(self, fn):
    r = self.locals.get(id(fn))
    if r is None:
      r = self.locals[id(fn)] = [n for n in ast.walk(fn) if isinstance(n, (
          ast.Assign, ast.For, ast.AugAssign, ast.withitem, ast.NamedExpr)) and enclosing(n) is fn]
    return r

  def bound_(self, fn, name):
    """Expressions a local name or parameter may be bound to; None when they
    are not all known."""
    out = []
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if name in pos + [x.arg for x in a.kwonlyargs]:
      calls = self.flow.callers(fn)
      if not calls:
        return None
      method = isinstance(getattr(fn, "_parent", None), ast.ClassDef) and not any(
          dotted(d) == "staticmethod" for d in fn.decorator_list)
      for c in calls:
        kw = [k.value for k in c.keywords if k.arg == name]
        if kw:
          out.append(kw[0])
          continue
        if name not in pos or any(isinstance(x, ast.Starred) for x in c.args):
          return None
        i = pos.index(name) - (1 if method else 0)
        if 0 <= i < len(c.args):
          out.append(c.args[i])
        else:
          j = pos.index(name) - (len(pos) - len(a.defaults))
          if j < 0:
            return None
          out.append(a.defaults[j])
    for n in self.own(fn):
      if isinstance(n, ast.Assign):
        for t in n.targets:
          if isinstance(t, ast.Name) and t.id == name:
            out.append(n.value)
          elif isinstance(t, (ast.Tuple, ast.List)) and binds(t, name):
            if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts):
              for x, v in zip(t.elts, n.value.elts):
                if isinstance(x, ast.Name) and x.id == name:
                  out.append(v)
            else:
              return None
      elif isinstance(n, (ast.For, ast.AugAssign, ast.withitem, ast.NamedExpr)):
        t = n.optional_vars if isinstance(n, ast.withitem) else n.target
        if t is not None and binds(t, name):
          return None
    return out

  def direct(self, e):
    """The option an expression reads, by itself."""
    if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
      sec = self.section(e.value)
      if sec is not None:
        key = "%s.%s" % (sec, e.attr)
        key = self.aliases.get(key, key)
        return key if key in self.options else None
      if sec is None and e.attr in self.by_name and not self.elsewhere(e):
        keys = self.by_name[e.attr]
        return keys[0] if len(keys) == 1 else None
    if isinstance(e, ast.Call):
      d = dotted(e.func) or (e.func.attr if isinstance(e.func, ast.Attribute) else "")
      if d == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
        sec = self.section(e.args[0])
        key = "%s.%s" % (sec, e.args[1].value)
        return key if key in self.options else None
      if d.rsplit(".", 1)[-1] == "resolve_for_command" and len(e.args) >= 2:
        for v in self.flow.values(e.args[1]):
          if v[0] == "strk" and v[1] in self.options:
            return v[1]
        if isinstance(e.args[1], ast.Constant) and e.args[1].value in self.options:
          return e.args[1].value
    return None

  def elsewhere(self, e):
    """The receiver is known not to be a configuration section."""
    if isinstance(e.value, ast.Name) and e.value.id in ("args", "argparser"):
      return True
    fn = enclosing(e)
    if fn is None:
      return True
    if isinstance(e.value, ast.Name) and e.value.id == "self":
      return True
    a = self.alias
    u = self.unit_of.get(id(fn))
    if u is None:
      return True
    a.u = u
    mask = a.ev(e.value)
    for b in range(mask.bit_length()):
      if mask >> b & 1:
        k = a.sites[b].klass
        if k is not None and k.qual in self.section_of:
          return False
    return True

  def option(self, e, depth=0):
    """The option whose value an expression holds."""
    key = (id(e))
    if key in self.memo:
      return self.memo[key]
    self.memo[key] = None
    r = self.direct(e)
    if r is None and isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and depth < 5:
      fn = enclosing(e)
      if fn is not None:
        vals = self.bound(fn, e.id)
        if vals:
          rs = {self.option(v, depth + 1) for v in vals}
          if len(rs) == 1:
            r = rs.pop()
    self.memo[key] = r
    return r

  # ------------------------------------------------------------ reads

  def collect(self):
    for m in self.model.modules.values():
      if m.name.endswith("config_util"):
        continue
      for n in ast.walk(m.tree):
        if not isinstance(n, (ast.Attribute, ast.Call)):
          continue
        o = self.direct(n)
        if o is not None:
          self.reads.setdefault(o, []).append(n)
          self.ctx.count("reads")

  def alive(self, node):
    fn = enclosing(node)
    if fn is None:
      return False
    u = self.unit_of.get(id(fn))
    while u is not None and not u.top:
      if u.qual in self.live:
        return True
      u = u.outer
    return False

  def acting(self, e, seen, depth=0):
    """The value of the expression decides something or becomes part of a
    result, other than a message."""
    if id(e) in seen or depth > 8:
      return False
    seen = seen | {id(e)}
    n, p = e, e._parent
    while isinstance(p, ast.expr) or isinstance(p, (ast.keyword, ast.comprehension)):
      if isinstance(p, ast.Call) and n is not p.func:
        nm = p.func.attr if isinstance(p.func, ast.Attribute) else p.func.id if isinstance(p.func, ast.Name) else ""
        if nm in SPEECH:
          return False
        if nm == "format" or nm == "len":
          n, p = p, p._parent
          continue
        ent = self.model.resolve_expr(self.flow.module_of(p), p.func) if dotted(p.func) else None
        if isinstance(ent, Klass) and any("Exception" in str(x) or "Error" in str(getattr(x, "name", x))
                                          for x in ent.mro()):
          return False
        if nm.endswith("Error"):
          return False
        if isinstance(ent, FunctionInfo):
          return self.argument(p, n, ent, seen, depth)
        if isinstance(ent, Klass):
          init = ent.lookup("__init__")[1]
          if isinstance(init, FunctionInfo):
            return self.argument(p, n, init, seen, depth)
          return True
        if isinstance(p.func, ast.Attribute) and ent is None:
          # a method: whatever the candidates do with it
          cands = [d for d in self.flow.defs.get(nm, ()) if isinstance(getattr(d, "_parent", None), ast.ClassDef)]
          if cands:
            return any(self.param_acts(d, self.position(d, p, n, True), seen, depth) for d in cands)
        return True
      if isinstance(p, ast.IfExp) and n is p.test:
        return ast.dump(p.body) != ast.dump(p.orelse)
      n, p = p, p._parent
    if isinstance(p, (ast.If, ast.While)) and n is p.test:
      if isinstance(p, ast.If):
        return [ast.dump(s) for s in p.body] != [ast.dump(s) for s in p.orelse] and not (
            not p.orelse and all(isinstance(s, ast.Pass) for s in p.body))
      return True
    if isinstance(p, ast.Assert):
      return False
    if isinstance(p, ast.Raise):
      return False
    if isinstance(p, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
      ts = p.targets if isinstance(p, ast.Assign) else [p.target]
      return any(self.target_acts(t, seen, depth) for t in ts)
    if isinstance(p, ast.Expr):
      return n is not e and not isinstance(n, (ast.Compare, ast.BoolOp, ast.Attribute)) and \
          isinstance(n, (ast.Call, ast.Yield, ast.Await))
    if isinstance(p, ast.For):
      return True
    return True

  def target_acts(self, t, seen, depth):
    if isinstance(t, (ast.Tuple, ast.List)):
      return any(self.target_acts(x, seen, depth) for x in t.elts)
    if isinstance(t, ast.Name):
      fn = enclosing(t)
      if fn is None:
        return True
      return any(self.acting(x, seen, depth + 1) for x in ast.walk(fn)
                 if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)
                 and (x.lineno >= t.lineno or self.in_loop(t)))
    if isinstance(t, ast.Attribute):
      # an attribute computed from the option
      return any(id(x) not in seen and self.alive(x) and self.acting(x, seen, depth + 1)
                 for x in self.attrs.get(t.attr, ()))
    if isinstance(t, ast.Subscript):
      return True
    return True

  def in_loop(self, n):
    while n is not None and not isinstance(n, ast.FunctionDef):
      if isinstance(n, (ast.For, ast.While)):
        return True
      n = getattr(n, "_parent", None)
    return False

  def position(self, fn, call, arg, method):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if isinstance(arg, ast.keyword):
      return arg.arg
    if arg in call.args:
      i = call.args.index(arg) + (1 if method else 0)
      return pos[i] if i < len(pos) else None
    for k in call.keywords:
      if k.value is arg or k is arg:
        return k.arg
    return None

  def argument(self, call, arg, fi, seen, depth):
    method = fi.klass is not None and not fi.is_static and (
        fi.is_classmethod or fi.node.name == "__init__" or isinstance(call.func, ast.Attribute) and not isinstance(
            self.model.resolve_expr(self.flow.module_of(call), call.func.value), Klass))
    return self.param_acts(fi.node, self.position(fi.node, call, arg, method), seen, depth)

  def param_acts(self, fn, name, seen, depth):
    if name is None:
      return True
    names = [x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    if name not in names:
      return True
    if (id(fn), name) in seen:
      return False
    seen = seen | {(id(fn), name)}
    return any(self.acting(x, seen, depth + 1) for x in ast.walk(fn)
               if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load))

  def honoured(self):
    for key in sorted(self.options):
      f = self.options[key]
      where = "%s:%d" % (f.klass.mod.relpath, f.call.lineno)
      reads = [r for r in self.reads.get(key, []) if self.alive(r)]
      self.ctx.count("options_judged")
      if not reads:
        self.ctx.violation("option-never-read", key, where, "no code reads the option, so setting it has no effect")
        continue
      acts = [r for r in reads if self.acting(r, frozenset())]
      self.ctx.count("acting_reads", len(acts))
      if not acts:
        m = self.flow.module_of(reads[0])
        self.ctx.violation("option-decides-nothing", key, "%s:%d" % (m.relpath, reads[0].lineno),
                           "the option is read but its value decides nothing")
      else:
        self.ctx.sample("%s acts at %s" % (key, ", ".join(
            "%s:%d" % (self.flow.module_of(r).relpath, r.lineno) for r in acts[:3])))

  # ------------------------------------------------------------ limits

  def limits(self):
    """max_x is the largest allowed amount, min_x the smallest."""
    for m, n in self.nodes[ast.Compare]:
      if len(n.ops) != 1:
        continue
      for side, other, flip in ((n.comparators[0], n.left, False), (n.left, n.comparators[0], True)):
        o = self.option(side)
        if o is None:
          continue
        name = o.split(".")[1]
        if not name.startswith(("max_", "min_")):
          continue
        if isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
          continue
        self.ctx.count("limit_tests")
        op = type(n.ops[0]).__name__
        if flip:
          op = {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE"}.get(op, op)
        good = ("Gt", "LtE") if name.startswith("max_") else ("Lt", "GtE")
        help_ = ""
        if name == "min_prefix_chars":
          good = ("Lt", "GtE", "LtE", "Gt")     # a preference, not a limit
        if isinstance(other, ast.BinOp) and isinstance(other.right, ast.Constant):
          continue
        if op not in good:
          self.ctx.violation("limit", "%s: %s" % (o, ast.unparse(n)), "%s:%d" % (m.relpath, n.lineno),
                             "an amount equal to %s is treated as outside the limit, or one beyond it as inside"
                             % name)

  def quoted(self):
    """A lint report which quotes an option is decided by that option."""
    for m in self.model.modules.values():
      if not m.name.startswith("cmakelang.lint"):
        continue
      for n in ast.walk(m.tree):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "record_lint"):
          continue
        for arg in n.args[1:]:
          o = self.option(arg)
          if o is None:
            continue
          self.ctx.count("quoted_options")
          tests = [t for t, _ in guards(n)]
          used = set()
          for t in tests:
            for x in ast.walk(t):
              if isinstance(x, ast.expr):
                used.add(self.option(x))
                if isinstance(x, ast.Name):
                  for v in self.bound(enclosing(x), x.id) or ():
                    for y in ast.walk(v):
                      if isinstance(y, ast.expr):
                        used.add(self.option(y))
          if o not in used and used & set(self.options):
            self.ctx.violation("quoted-option", "%s: %s" % (o, ast.unparse(n.args[0]) if n.args else ""),
                               "%s:%d" % (m.relpath, n.lineno),
                               "the report names %s but is decided by %s" % (
                                   o, ", ".join(sorted(x for x in used if x in self.options))))

  # ------------------------------------------------------------ choices

  def literal(self, e):
    try:
      return ast.literal_eval(e)
    except Exception:
      pass
    if isinstance(e, (ast.Name, ast.Attribute)):
      vs = list(self.flow.values(e))
      if len(vs) == 1 and vs[0][0] == "strk":
        return vs[0][1]
      ent = self.model.resolve_expr(self.flow.module_of(e), e) if dotted(e) else None
      if isinstance(ent, tuple) and ent[0] == "var":
        bs = ent[1].bind.get(ent[2], ())
        if len(bs) == 1 and bs[0][0] == "assign" and isinstance(bs[0][1], ast.Assign):
          try:
            return ast.literal_eval(bs[0][1].value)
          except Exception:
            pass
    raise Unknown()

  def truth(self, t, o, v):
    """Truth of a test when the option has the value; None when unknown."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
      r = self.truth(t.operand, o, v)
      return None if r is None else not r
    if isinstance(t, ast.BoolOp):
      rs = [self.truth(x, o, v) for x in t.values]
      if isinstance(t.op, ast.And):
        return False if False in rs else None if None in rs else True
      return True if True in rs else None if None in rs else False
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
      l, r, op = t.left, t.comparators[0], t.ops[0]
      try:
        if self.option(l) == o:
          x = self.literal(r)
          if isinstance(op, (ast.Eq, ast.Is)):
            return v == x
          if isinstance(op, (ast.NotEq, ast.IsNot)):
            return v != x
          if isinstance(op, ast.In):
            return v in x
          if isinstance(op, ast.NotIn):
            return v not in x
        if self.option(r) == o and isinstance(op, (ast.Eq, ast.NotEq)):
          x = self.literal(l)
          return (v == x) == isinstance(op, ast.Eq)
      except (Unknown, TypeError):
        return None
    if self.option(t) == o:
      return bool(v)
    if isinstance(t, ast.Name):
      fn = enclosing(t)
      if fn is not None:
        vals = self.bound(fn, t.id)
        if vals and len(vals) == 1 and not isinstance(vals[0], ast.Name):
          return self.truth(vals[0], o, v)
    return None

  def mentions(self, t, o):
    return o in self.mentioned(t)

  def mentioned(self, t):
    r = self.mention.get(id(t))
    if r is None:
      r = set()
      for x in ast.walk(t):
        if isinstance(x, ast.expr):
          r.add(self.option(x))
      if isinstance(t, ast.Name):
        fn = enclosing(t)
        vals = self.bound(fn, t.id) if fn is not None else None
        for v in vals or ():
          if not isinstance(v, ast.Name):
            r |= self.mentioned(v)
      self.mention[id(t)] = r
    return r

  def choices(self):
    for key in sorted(self.options):
      f = self.options[key]
      if f.choices is None:
        continue
      try:
        vals = list(self.literal(f.choices))
      except (Unknown, TypeError):
        if isinstance(f.choices, ast.Constant) and f.choices.value is None:
          continue
        self.ctx.undecide("choices of %s" % key, "the list of values is computed")
        continue
      self.ctx.count("choice_options")
      self.ctx.count("choice_values", len(vals))
      try:
        d = self.literal(f.default)
      except Unknown:
        d = None
      if d is not None and d not in vals:
        self.ctx.violation("default-not-a-choice", key, "%s:%d" % (f.klass.mod.relpath, f.call.lineno),
                           "the default %r is not among the allowed values" % (d,))
      self.one(key, f, vals)

  def fail(self, key, v, node, why):
    self.failed.add(v)
    m = self.flow.module_of(node)
    self.ctx.violation("value-not-handled", "%s=%s" % (key, v),
                       "%s:%d" % (m.relpath, node.lineno), why)

  def one(self, key, f, vals):
    outcomes = {v: [] for v in vals}
    self.failed = set()
    for t in (ast.Compare, ast.Raise, ast.Assert, ast.Subscript, ast.Call):
      for m, n in self.nodes.get(t, ()):
        if m.name == UTIL:
          continue
        if isinstance(n, ast.Compare):
          if self.mentions(n, key):
            self.literals(key, n, vals, m)
            for v in vals:
              outcomes[v].append(self.truth(n, key, v))
            self.ctx.count("choice_tests")
        if isinstance(n, (ast.Raise, ast.Assert)):
          gs = guards(n)
          if isinstance(n, ast.Assert):
            gs = [(n.test, False)] + gs
          rel = [(t, p) for t, p in gs if self.mentions(t, key)]
          if not rel:
            continue
          self.ctx.count("choice_errors")
          for v in vals:
            rs = [self.truth(t, key, v) for t, p in rel]
            if all(r is not None and r == p for r, (t, p) in zip(rs, rel)):
              self.fail(key, v, n, "the allowed value %r of %s leads to `%s`" % (
                  v, key, ast.unparse(n).replace("\n", " ")[:70]))
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and self.option(n.slice) == key:
          d = self.table(n.value)
          if d is None:
            continue
          self.ctx.count("choice_tables")
          keys = {}
          for k, x in zip(d.keys, d.values):
            try:
              keys[self.literal(k)] = x
            except (Unknown, AttributeError):
              keys = None
              break
          if keys is None:
            continue
          for v in vals:
            if v not in keys:
              rel = [(t, p) for t, p in guards(n) if self.mentions(t, key)]
              rs = [self.truth(t, key, v) for t, p in rel]
              if any(r is not None and r != p for r, (t, p) in zip(rs, rel)):
                continue
              self.fail(key, v, n, "the allowed value %r of %s is not in the table" % (v, key))
            outcomes[v].append(ast.dump(keys[v]) if v in keys else None)
        if isinstance(n, ast.Call) and dotted(n.func) == "getattr" and len(n.args) >= 2 and \
            self.option(n.args[1]) == key:
          rel = [(t, p) for t, p in guards(n) if self.mentions(t, key)]
          self.ctx.count("choice_tables")
          for v in vals:
            rs = [self.truth(t, key, v) for t, p in rel]
            if any(r is not None and r != p for r, (t, p) in zip(rs, rel)):
              continue
            outcomes[v].append("getattr:" + v)
            if not hasattr(str, v):
              self.fail(key, v, n, "the allowed value %r of %s is used as the name of a string method" % (v, key))
    # every value makes a difference of its own
    for a, b in itertools.combinations(vals, 2):
      same = len(outcomes[a]) == len(outcomes[b]) and all(
          x == y for x, y in zip(outcomes[a], outcomes[b]))
      bad = [v for v in (a, b) if v in self.failed]
      if same and not bad:
        self.ctx.violation("values-alike", "%s: %s and %s" % (key, a, b),
                           "%s:%d" % (f.klass.mod.relpath, f.call.lineno),
                           "no code distinguishes the values %r and %r" % (a, b))
    if not any(outcomes[v] for v in vals):
      self.ctx.count("choices_untested")
    self.semantics(key, vals)

  def table(self, e, depth=0):
    if isinstance(e, ast.Dict):
      return e
    if isinstance(e, ast.Name) and depth < 3:
      fn = enclosing(e)
      if fn is not None:
        vals = self.bound(fn, e.id)
        if vals and len(vals) == 1:
          return self.table(vals[0], depth + 1)
      ent = self.model.resolve_name(self.flow.module_of(e), e.id)
      if isinstance(ent, tuple) and ent[0] == "var":
        bs = ent[1].bind.get(ent[2], ())
        if len(bs) == 1 and bs[0][0] == "assign" and isinstance(bs[0][1], ast.Assign):
          return self.table(bs[0][1].value, depth + 1)
    return None

  def literals(self, key, n, vals, m):
    """The option is compared with nothing but its values."""
    for side in [n.left] + n.comparators:
      if self.option(side) == key:
        continue
      try:
        x = self.literal(side)
      except Unknown:
        continue
      xs = x if isinstance(x, (tuple, list, set, frozenset)) else [x]
      for y in xs:
        if isinstance(y, str) and y not in vals:
          self.ctx.violation("unknown-value", "%s: %r" % (key, y), "%s:%d" % (m.relpath, n.lineno),
                             "%s is compared with %r, which is not one of its values" % (key, y))

  # ------------------------------------------------------------ meanings

  CASES = ("lower", "upper")

  def semantics(self, key, vals):
    if key.endswith("_case"):
      self.case(key, vals)
    if key == "format.line_ending":
      self.endings(key)

  def case(self, key, vals):
    """Code that runs for the value upper does not convert to lower case, and
    the other way round; unchanged converts nothing."""
    for m, n in self.nodes[ast.Call]:
      if enclosing(n) is None or not isinstance(n.func, ast.Attribute) \
          or n.func.attr not in self.CASES or n.args:
        continue
      rel = [(t, p) for t, p in guards(n) if self.mentions(t, key)]
      if not rel:
        continue
      self.ctx.count("case_conversions")
      for v in vals:
        rs = [self.truth(t, key, v) for t, p in rel]
        if all(r is not None and r == p for r, (t, p) in zip(rs, rel)):
          if v == "unchanged" or v in self.CASES and v != n.func.attr:
            self.fail(key, v, n, "%s is applied when %s is %r" % (ast.unparse(n)[:50], key, v))

  def endings(self, key):
    want = {"windows": "\r\n", "unix": "\n", "auto": "\n"}
    for m in self.model.modules.values():
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and k.value in want
                                                      for k in n.keys):
          self.ctx.count("ending_tables")
          for k, v in zip(n.keys, n.values):
            if isinstance(v, ast.Constant) and isinstance(v.value, str) and v.value != want[k.value]:
              self.fail(key, k.value, v, "the line ending of %r is %r" % (k.value, v.value))


def run(ctx):
  ctx.rule("every declared option is read by code that runs and decides or shapes something there")
  ctx.rule("no allowed value of an option reaches an error raised for unknown values, is missing from a lookup "
           "table, or cannot be told from another value; an option is compared with its own values only")
  ctx.rule("max_ options are the largest allowed amount; a lint report is decided by the option it quotes")
  c = C14(ctx)
  c.honoured()
  c.limits()
  c.quoted()
  c.choices()
  ctx.expect("options", 50)
  ctx.expect("reads", 80)
  ctx.expect("acting_reads", 60)
  ctx.expect("choice_options", 5)
  ctx.expect("choice_tests", 8)
  ctx.expect("limit_tests", 8)
  ctx.expect("quoted_options", 5)
