"""C19: the command database is well-formed.

(1) get_parse_db and every populate_db it calls are interpreted abstractly, so
that the database's keys, values and every overriding assignment are known.
(2) The literal specification tables are evaluated as constants and judged
entry by entry against the signatures of the classes which consume them.
(3) Every keyword table and flag list which the command parsers pass on is
judged the same way."""
import ast
import re

from ..absint import (C, Ext, U, Tup, Inst, Lst, Sig, NONE, TRUE, FALSE, ExcV, show, BM, Ref,
                      ClsV, Dct, FnV, Bound, ModV)
from ..cli import FilePlugin, run_entry
from ..model import AnchorError, Klass, FunctionInfo

FUNS = "cmakelang.parse.funs"
UTIL = "cmakelang.parse.util"
NARGS = re.compile(r"^([*+?]|\d+\+?)$")
WORD = re.compile(r"^[A-Za-z_]")


class Dup:
  def __init__(self, v):
    self.v = v


def literal(node, mod, model, dups):
  """Constant value of a table expression.  Raises ValueError."""
  if isinstance(node, ast.Dict):
    out = {}
    for k, v in zip(node.keys, node.values):
      if k is None:
        raise ValueError("** in table")
      kk = literal(k, mod, model, dups)
      if kk in out:
        dups.append((kk, k.lineno))
      out[kk] = literal(v, mod, model, dups)
    return out
  if isinstance(node, (ast.List, ast.Tuple)):
    return [literal(e, mod, model, dups) for e in node.elts]
  if isinstance(node, ast.Constant):
    return node.value
  if isinstance(node, (ast.Name, ast.Attribute)):
    ent = model.resolve_expr(mod, node)
    if isinstance(ent, tuple) and ent[0] == "var":
      for s in ent[1].tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == ent[2] for t in s.targets):
          return literal(s.value, ent[1], model, dups)
  if isinstance(node, ast.UnaryOp) or isinstance(node, ast.BinOp):
    try:
      return ast.literal_eval(node)
    except Exception:
      if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        a, b = literal(node.left, mod, model, dups), literal(node.right, mod, model, dups)
        if isinstance(a, list) and isinstance(b, list):
          return a + b
  raise ValueError(ast.dump(node)[:60])


def norm(key):
  """The normal form get_normalized_kwarg gives a keyword token."""
  if key.startswith("-"):
    return key.lower()
  return key.upper()


class P(FilePlugin):

  def __init__(self, model, specs):
    FilePlugin.__init__(self, inline_mods=[m for m in model.modules if m.startswith(FUNS)])
    self.model, self.specs = model, specs
    self.sets = []
    self.mods = []

  def event(self, st, *ev):
    pass

  def may_raise(self, st, f, node):
    return False

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, Ext) and f.name == "importlib.import_module":
      nm = self.interp.resolve(st, args[0])
      if isinstance(nm, C):
        mod = self.model.modules.get(nm.v)
        if mod is None:
          self.missing.append((nm.v, self.interp.where(st, node)))
          return [(st, U(("module", nm.v)))]
        self.mods.append(nm.v)
        return [(st, ModV(mod))]
    return FilePlugin.on_call(self, st, f, args, kwargs, node)

  def on_set_subscript(self, st, base, key, val, node):
    if isinstance(base, Ref) and isinstance(st.heap.get(base), Dct):
      k = self.interp.resolve(st, key)
      if isinstance(k, C):
        old = st.heap[base].items.get(k)
        self.sets.append((k.v, val, self.interp.where(st, node), old))
    return None


def accepts(info, n, bound):
  """Can the function be called with n positional arguments (self bound)?"""
  a = info.node.args
  pos = list(a.posonlyargs) + list(a.args)
  if bound:
    pos = pos[1:]
  need = len(pos) - len(a.defaults)
  kwreq = [k for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
  if kwreq:
    return False
  return need <= n and (n <= len(pos) or a.vararg is not None)


def callable3(model, mod, node, env=None):
  """None if the table value can be called as parser(ctx, tokens, breakstack),
  otherwise what is wrong; "?" if unknown."""
  if isinstance(node, ast.Call):
    ent = model.resolve_expr(mod, node.func)
    if isinstance(ent, Klass):
      _, c = ent.lookup("__call__")
      if not isinstance(c, FunctionInfo):
        return "is an object of %s, which is not callable" % ent.name
      return None if accepts(c, 3, True) else "is an object of %s, whose call takes other arguments" % ent.name
    return "?"
  if isinstance(node, (ast.Name, ast.Attribute)):
    try:
      ent = model.resolve_expr(mod, node)
    except AnchorError:
      return "?"
    if isinstance(ent, FunctionInfo):
      bound = ent.klass is not None and ent.is_classmethod if hasattr(ent, "is_classmethod") else \
          ent.klass is not None
      return None if accepts(ent, 3, bound) else "is %s, which takes other arguments" % ent.qual
    if isinstance(ent, Klass):
      return "is the class %s itself" % ent.name
    if isinstance(node, ast.Attribute):
      base = model.resolve_expr(mod, node.value)
      if isinstance(base, Klass):
        _, f = base.lookup(node.attr)
        if isinstance(f, FunctionInfo):
          return None if accepts(f, 3, True) else "is %s, which takes other arguments" % f.qual
        return "does not exist"
    return "?"
  if isinstance(node, ast.Constant):
    return "is the constant %r" % (node.value,)
  return "?"


def check_spec(ctx, model, name, spec, where, top):
  """Judge one command/keyword specification."""
  c = ctx
  c.count("specifications")
  params = set(model.klass(UTIL + ".CommandSpec").lookup("__init__")[1].params[2:])
  pparams = set(model.klass(UTIL + ".PositionalSpec").lookup("__new__")[1].params[1:])

  def nargs(v, what):
    if isinstance(v, bool) or not isinstance(v, (int, str)) or isinstance(v, str) and not NARGS.match(v):
      c.violation("bad-nargs", name, where, "%s has number of arguments %r" % (what, v))

  def flags(fl):
    for f in fl or []:
      if not isinstance(f, str) or norm(f) != f:
        c.violation("unreachable-flag", "%s flag %s" % (name, f), where,
                    "the flag is not in the normalised case and is never recognised")
    for f in sorted(set(x for x in fl or [] if (fl or []).count(x) > 1)):
      c.violation("duplicate-flag", "%s flag %s" % (name, f), where, "the flag is listed twice")

  if isinstance(spec, (int, str)):
    nargs(spec, "it")
    return
  if not isinstance(spec, dict):
    c.violation("bad-spec", name, where, "the specification is a %s" % type(spec).__name__)
    return
  for k in sorted(set(map(str, spec)) - params):
    c.violation("bad-spec", "%s %s" % (name, k), where, "%r is not part of a command specification" % k)
  pargs = spec.get("pargs")
  flags(spec.get("flags"))
  decls = pargs if isinstance(pargs, list) else [pargs]
  for d in decls:
    if d is None:
      continue
    if isinstance(d, dict):
      for k in sorted(set(map(str, d)) - pparams):
        c.violation("bad-spec", "%s pargs %s" % (name, k), where, "%r is not part of a positional specification" % k)
      if "nargs" in d:
        nargs(d["nargs"], "a positional group")
      flags(d.get("flags"))
    elif isinstance(d, list):
      if d:
        nargs(d[0], "a positional group")
    else:
      nargs(d, "a positional group")
  if spec.get("flags") and not isinstance(pargs, (type(None), int, str)):
    c.violation("bad-spec", name, where, "top-level flags cannot be combined with structured positional arguments")
  kw = spec.get("kwargs") or {}
  items = kw.items() if isinstance(kw, dict) else [tuple(x) for x in kw]
  seen = set()
  for k, sub in items:
    c.count("keywords")
    if not isinstance(k, str) or norm(k) != k:
      c.violation("unreachable-keyword", "%s %s" % (name, k), where,
                  "the keyword is not in the normalised case and is never recognised")
    if k in seen:
      c.violation("duplicate-keyword", "%s %s" % (name, k), where, "the keyword is declared twice")
    seen.add(k)
    if k in (spec.get("flags") or []):
      c.violation("duplicate-keyword", "%s %s" % (name, k), where, "both a flag and a keyword")
    check_spec(ctx, model, "%s %s" % (name, k), sub, where, False)


def tables(ctx, model):
  """FUNSPECS style tables of the modules get_fn_spec groups."""
  out = {}
  for mname in (FUNS + ".standard_builtins", FUNS + ".standard_modules"):
    mod = model.modules.get(mname)
    if mod is None:
      raise AnchorError("no module " + mname)
    node = next((s.value for s in mod.tree.body if isinstance(s, ast.Assign) and
                 any(isinstance(t, ast.Name) and t.id == "FUNSPECS" for t in s.targets)), None)
    if node is None:
      raise AnchorError("%s has no FUNSPECS" % mname)
    dups = []
    try:
      tab = literal(node, mod, model, dups)
    except ValueError as ex:
      raise AnchorError("FUNSPECS of %s is not a literal table: %s" % (mname, ex))
    for k, ln in dups:
      ctx.violation("overridden", "%s %s" % (mname, k), "%s:%d" % (mod.relpath, ln),
                    "the key %r appears twice, the first entry is lost" % (k,))
    for name, spec in sorted(tab.items()):
      ctx.count("table_entries")
      if name != name.lower():
        ctx.count("table_names_lowered")   # CommandSpec.add lowers them
      if name.lower() in out:
        ctx.violation("overridden", name.lower(), "%s:%d" % (mod.relpath, node.lineno),
                      "the entry of %s replaces the one of %s" % (mname, out[name.lower()]))
      out[name.lower()] = mname
      check_spec(ctx, model, name, spec, "%s:%d" % (mod.relpath, node.lineno), True)
  return out


def specs_lowered(ctx, model):
  """CommandSpec.add must store commands under their lower-case name."""
  info = model.function(UTIL + ".CommandSpec.add")
  p = FilePlugin(inline_mods=[UTIL])
  p.event = lambda st, *e: None
  p.may_raise = lambda st, f, n: False
  k = model.klass(UTIL + ".CommandSpec")
  p.handlers[k.qual] = lambda st, a, kw, n: [(st, U(("spec",) + tuple(a[:1])))]

  def setup(st):
    d = p.interp.alloc(st, ("kw",), Dct({}))
    me = p.interp.alloc(st, ("me",), Inst(k, {"kwargs": d}))
    st.p.d["d"] = d
    return [me, C("MixedCase")], {}
  it, res = run_entry(model, p, info.qual, setup)
  for st, v in res:
    ctx.count("add_paths")
    keys = [x.v for x in st.heap[st.p.d["d"]].items if isinstance(x, C)]
    if keys != ["mixedcase"]:
      ctx.violation("not-lowered", info.qual, info.where,
                    "a command named MixedCase is stored under %r, but looked up in lower case" % (keys,))


def lookup_case(ctx, model):
  """The statement parser must look commands up in lower case."""
  found = 0
  for info in model.functions.values():
    if info.mod.name != "cmakelang.parse.statement_node":
      continue
    for n in ast.walk(info.node):
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and \
          isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "parse_db" and n.args and \
          not isinstance(n.args[0], ast.Constant):
        found += 1
        key = n.args[0]
        if isinstance(key, ast.Name):
          defs = [s.value for s in ast.walk(info.node) if isinstance(s, ast.Assign)
                  and any(isinstance(t, ast.Name) and t.id == key.id for t in s.targets)]
        else:
          defs = [key]
        for d in defs:
          if not any(isinstance(x, ast.Attribute) and x.attr in ("lower", "casefold") for x in ast.walk(d)):
            ctx.violation("lookup-case", info.qual, "%s:%d" % (info.mod.relpath, n.lineno),
                          "commands are looked up without lowering their name")
  ctx.count("database_lookups", found)


def is_flaglist(node):
  return isinstance(node, (ast.List, ast.Tuple, ast.Set)) and node.elts and \
      all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in node.elts)


def code_tables(ctx, model):
  """Keyword tables and flag lists inside the command parsers."""
  ctors = {"StandardParser", "PositionalParser", "TupleParser", "StandardParser2"}
  for mname, mod in sorted(model.modules.items()):
    if not mname.startswith(FUNS + ".") or mname.endswith(("standard_builtins", "standard_modules", "standard_funs")):
      if mname not in ("cmakelang.parse.additional_nodes", "cmakelang.parse.argument_nodes"):
        continue
    for fn in ast.walk(mod.tree):
      if not isinstance(fn, (ast.FunctionDef, ast.Module)):
        continue
      for n in (ast.walk(fn) if isinstance(fn, ast.FunctionDef) else fn.body):
        if not isinstance(n, ast.Dict) or not n.keys:
          continue
        keys = [k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)]
        vals = [callable3(model, mod, v) for v in n.values]
        parserish = [v for v in vals if v != "?" and not (v or "").startswith("is the constant")]
        if not parserish:
          continue
        fname = fn.name if isinstance(fn, ast.FunctionDef) else "<module>"
        for k, v, vv in zip(n.keys, n.values, vals):
          if not isinstance(k, ast.Constant):
            continue
          ctx.count("code_keywords")
          key = "%s.%s %s" % (mname, fname, k.value)
          where = "%s:%d" % (mod.relpath, k.lineno)
          if isinstance(k.value, str) and norm(k.value) != k.value:
            ctx.violation("unreachable-keyword", key, where,
                          "the keyword is not in the normalised case and is never recognised")
          if keys.count(k.value) > 1:
            ctx.violation("overridden", key, where, "the keyword appears twice in the table")
          if vv not in (None, "?"):
            ctx.violation("not-callable", key, where, "the keyword's parser " + vv)
      if isinstance(fn, ast.FunctionDef):
        for n in ast.walk(fn):
          if not isinstance(n, ast.Call):
            continue
          for kw in n.keywords:
            if kw.arg == "flags" and is_flaglist(kw.value):
              vals = [e.value for e in kw.value.elts]
              ctx.count("flag_lists")
              for x in vals:
                if norm(x) != x:
                  ctx.violation("unreachable-flag", "%s.%s %s" % (mname, fn.name, x), "%s:%d" % (
                      mod.relpath, kw.value.lineno), "the flag is not in the normalised case and is never recognised")
              for x in sorted({x for x in vals if vals.count(x) > 1}):
                ctx.violation("duplicate-flag", "%s.%s %s" % (mname, fn.name, x), "%s:%d" % (
                    mod.relpath, kw.value.lineno), "the flag is listed twice")


def comparisons(ctx, model):
  """A spelling put in upper case is only compared with upper-case words."""
  for mname, mod in sorted(model.modules.items()):
    if not mname.startswith("cmakelang.parse"):
      continue
    for fn in ast.walk(mod.tree):
      if not isinstance(fn, ast.FunctionDef):
        continue
      upper = set()
      lower = set()
      for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
            and n.value.func.attr in ("upper", "lower"):
          for t in n.targets:
            if isinstance(t, ast.Name):
              (upper if n.value.func.attr == "upper" else lower).add(t.id)
      for n in ast.walk(fn):
        if not isinstance(n, ast.Compare) or len(n.ops) != 1:
          continue
        a, b = n.left, n.comparators[0]
        for x, y in ((a, b), (b, a)):
          case = None
          if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("upper", "lower"):
            case = x.func.attr
          elif isinstance(x, ast.Name) and x.id in upper and x.id not in lower:
            case = "upper"
          elif isinstance(x, ast.Name) and x.id in lower and x.id not in upper:
            case = "lower"
          elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "get_normalized_kwarg":
            case = "upper"
          elif isinstance(x, ast.Attribute) and x.attr in ("upper", "lower") and \
              isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            ctx.violation("method-compared", "%s.%s" % (mname, fn.name), "%s:%d" % (mod.relpath, n.lineno),
                          "the method %s itself is compared, not its result: never equal" % x.attr)
          if case is None:
            continue
          consts = [e.value for e in ([y] if isinstance(y, ast.Constant) else
                                      y.elts if isinstance(y, (ast.Tuple, ast.List, ast.Set)) else [])
                    if isinstance(e, ast.Constant) and isinstance(e.value, str)]
          for s in consts:
            ctx.count("case_comparisons")
            ok = s == getattr(s, case)() or (case == "upper" and s.startswith("-") and
                                             isinstance(x, ast.Call) and isinstance(x.func, ast.Name))
            if not ok:
              ctx.violation("never-equal", "%s.%s %s" % (mname, fn.name, s), "%s:%d" % (mod.relpath, n.lineno),
                            "text in %s case is compared with %r and never equals it" % (case, s))


def database(ctx, model, table):
  info = model.function(FUNS + ".get_parse_db")
  p = P(model, table)
  p.missing = []

  def funtree(st, args, kwargs, node):
    d = p.interp.alloc(st, ("funtree",), Dct({C(n): U(("spec-parser", n)) for n in sorted(table)}))
    return [(st, d)]
  p.handlers[FUNS + ".get_funtree"] = funtree
  p.handlers[FUNS + ".standard_funs.get_fn_spec"] = lambda st, a, k, n: [(st, U(("fnspec",)))]
  it, res = run_entry(model, p, info.qual, lambda st: ([], {}))
  for name, where in p.missing:
    ctx.violation("no-such-module", name, where, "the database imports a module which does not exist")
  # every module with a populate_db takes part
  mods = [n for n, m in sorted(model.modules.items()) if n.startswith(FUNS + ".") and "populate_db" in m.bind]
  for n in mods:
    ctx.count("command_modules")
    if n not in p.mods:
      ctx.violation("module-left-out", n, model.modules[n].relpath, "the commands of this module are never registered")
  final = None
  for st, v in res:
    ctx.count("database_paths")
    if isinstance(v, Sig) or not isinstance(v, Ref) or not isinstance(st.heap.get(v), Dct):
      ctx.violation("database-fails", info.qual, info.where, "get_parse_db ends with %s" % show(
          v.val if isinstance(v, Sig) else v))
      continue
    final = {k.v: x for k, x in st.heap[v].items.items() if isinstance(k, C)}
    for k, x in sorted(final.items()):
      ctx.count("database_entries")
      if not isinstance(k, str) or k != k.lower():
        ctx.violation("unreachable-command", str(k), info.where, "the command's key is not lower case and is never found")
      bad = val_callable(st, x)
      if bad:
        ctx.violation("not-callable", str(k), info.where, "the command's parser " + bad)
    for n in sorted(table):
      if n not in final:
        ctx.violation("table-left-out", n, info.where, "an entry of the specification tables is not in the database")
  seen = {}
  for k, x, where, old in p.sets:
    if k in seen and seen[k][0] != x and seen[k][1] != where:
      ctx.violation("overridden", str(k), where, "replaces the parser registered at %s" % seen[k][1])
    seen[k] = (x, where)
  for k in sorted(seen):
    if k in table and final is not None:
      ctx.violation("overridden", str(k), seen[k][1],
                    "the command is registered here and also in the table of %s, so one of them is lost" % table[k])
  return final, seen


def val_callable(st, v):
  if isinstance(v, FnV):
    return None if accepts(v.info, 3, v.info.klass is not None) else "takes other arguments (%s)" % v.info.qual
  if isinstance(v, Bound):
    f = v.fn if hasattr(v, "fn") else None
    info = getattr(f, "info", None) or getattr(v, "info", None)
    if info is None:
      return None
    return None if accepts(info, 3, True) else "takes other arguments (%s)" % info.qual
  if isinstance(v, Ref):
    o = st.heap.get(v)
    if isinstance(o, Inst) and isinstance(o.klass, Klass):
      _, c = o.klass.lookup("__call__")
      if not isinstance(c, FunctionInfo):
        return "is an object of %s, which is not callable" % o.klass.name
      return None if accepts(c, 3, True) else "takes other arguments (%s)" % c.qual
    return "is a container"
  if isinstance(v, C):
    return "is the constant %r" % (v.v,)
  if isinstance(v, ClsV):
    return "is the class %s itself" % v.klass.name
  return None


def unregistered(ctx, model):
  """A parser of the module's own which nothing refers to."""
  for mname, mod in sorted(model.modules.items()):
    if not mname.startswith(FUNS + ".") or "populate_db" not in mod.bind:
      continue
    fns = {i.node.name: i for i in model.functions.values() if i.mod is mod and i.klass is None}
    refs = {}
    for name, i in fns.items():
      refs[name] = {n.id for n in ast.walk(i.node) if isinstance(n, ast.Name)}
    other = set()
    for m2 in model.modules.values():
      if m2 is not mod:
        for n in ast.walk(m2.tree):
          if isinstance(n, ast.ImportFrom):
            other |= {a.name for a in n.names}
          elif isinstance(n, ast.Attribute):
            other.add(n.attr)
    top = set()
    for s in mod.tree.body:
      if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        top |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
      elif isinstance(s, ast.ClassDef):
        top |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
    live = {"populate_db"} | (top & set(fns)) | (other & set(fns))
    todo = list(live)
    while todo:
      x = todo.pop()
      for y in refs.get(x, ()):
        if y in fns and y not in live:
          live.add(y)
          todo.append(y)
    for name, i in sorted(fns.items()):
      if not accepts(i, 3, False) or len(i.params) != 3 or i.params[1:2] != ["tokens"]:
        continue
      ctx.count("parser_functions")
      if any(name.startswith(y + "_") for y in live):
        continue  # a helper of a registered parser which is no longer used
      if name not in live:
        ctx.violation("unregistered", i.qual, i.where, "the parser is neither registered nor used by another")


def nargs_kept(ctx, model):
  """parse_pspec keeps the declared number of arguments."""
  info = model.function(UTIL + ".parse_pspec")
  ks = model.klass(UTIL + ".PositionalSpec")
  forms = [("number", lambda p, st: C(3), 3), ("string", lambda p, st: C("+"), "+"),
           ("dictionary", lambda p, st: p.interp.alloc(st, ("d",), Dct({C("nargs"): C(3)})), 3),
           ("dictionary with flags", lambda p, st: p.interp.alloc(st, ("d",), Dct(
               {C("nargs"): C("2+"), C("flags"): Tup((C("A"),))})), "2+"),
           ("list of numbers", lambda p, st: Tup((C(2), C("+"))), (2, "+")),
           ("list of dictionaries", lambda p, st: Tup((p.interp.alloc(st, ("d",), Dct(
               {C("nargs"): C(1)})),)), (1,))]
  for label, mk, want in forms:
    p = FilePlugin(inline_mods=[UTIL])
    p.event = lambda st, *e: None
    p.may_raise = lambda st, f, n: False
    names = ks.lookup("__new__")[1].params[1:]

    def make(st, a, kw, n, names=names):
      d = dict(zip(names, a))
      d.update(kw)
      return [(st, U(("pspec", d.get("nargs", NONE))))]
    p.handlers[ks.qual] = make
    it, res = run_entry(model, p, info.qual, lambda st, mk=mk, p=p: ([mk(p, st), NONE], {}))
    for st, v in res:
      ctx.count("pspec_paths")
      if isinstance(v, Sig):
        ctx.violation("spec-rejected", "%s [%s]" % (info.qual, label), info.where, "raises %s" % v.val.cls)
        continue
      items = st.heap[v].items if isinstance(v, Ref) and isinstance(st.heap.get(v), Lst) else \
          v.items if isinstance(v, Tup) else ()
      got = tuple(x.key[1].v if isinstance(x, U) and x.key[0] == "pspec" and isinstance(x.key[1], C) else "?"
                  for x in items)
      w = want if isinstance(want, tuple) else (want,)
      if got != w:
        ctx.violation("nargs-lost", "%s [%s]" % (info.qual, label), info.where,
                      "declared numbers of arguments %s become %s" % (w, got))


def run(ctx):
  m = ctx.model
  ctx.rule("every database key is lower case, every value can be called with (ctx, tokens, breakstack), "
           "no key is registered twice, every module and table takes part, no parser is left unregistered")
  ctx.rule("specification entries are consumable, their keywords and flags are in the normalised case and unique")
  table = tables(ctx, m)
  specs_lowered(ctx, m)
  lookup_case(ctx, m)
  code_tables(ctx, m)
  comparisons(ctx, m)
  unregistered(ctx, m)
  nargs_kept(ctx, m)
  final, seen = database(ctx, m, table)
  ctx.sample("registered in code: " + ", ".join(sorted(seen)[:12]))
  ctx.expect("table_entries", 250)
  ctx.expect("database_entries", 300)
  ctx.expect("code_keywords", 150)
  ctx.expect("flag_lists", 20)
  ctx.expect("case_comparisons", 10)
  ctx.expect("command_modules", 12)
  ctx.expect("parser_functions", 50)
  ctx.expect("database_lookups", 1)
