"""C22: one grammar for every tool.

Each tool which parses listfiles is interpreted abstractly from its entry
point, every helper of its own module inlined; databases, specification tables
and configurations carry where they came from.  At every call of the parser
the context it is given must hold the built-in database extended by the
function specification of the very configuration in the context, and that
configuration must be the user's.  A separate ownership analysis shows that
code which analyses a tree does not write into it."""
import ast

from ..absint import (C, U, Ref, Inst, Dct, Sig, NONE, ClsV, Ext, ExcV, AnalysisError, show, Bound, FnV, Lst)
from ..cli import FilePlugin, run_entry, mentions
from ..flow import Flow, enclosing, binds, guards, atoms
from ..model import AnchorError, Klass, FunctionInfo, Module, dotted

FMT = "cmakelang.format.__main__"
LINT = "cmakelang.lint.__main__"
PARSE = "cmakelang.parse.parse"
TOKENIZE = "cmakelang.lex.tokenize"
PCTX = "cmakelang.parse.ParseContext"
GETDB = "cmakelang.parse.funs.get_parse_db"
FUNTREE = "cmakelang.parse.funs.get_funtree"
CONFCLS = "cmakelang.configuration.Configuration"


def tools(model):
  """module -> functions calling the parser, outside the parser package."""
  out = {}
  for m in model.modules.values():
    if m.name.startswith("cmakelang.parse") or m.name.startswith("cmakelang.lex"):
      continue
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Call):
        ent = model.resolve_expr(m, n.func)
        if isinstance(ent, FunctionInfo) and ent.qual == PARSE:
          out.setdefault(m.name, []).append(n)
  return out


class P(FilePlugin):
  def __init__(self, ctx, model, mod, opaque):
    FilePlugin.__init__(self, inline_mods=[mod], opaque=opaque)
    self.ctx, self.model, self.mod = ctx, model, mod
    self.seen = set()
    self.stop = False
    h = self.handlers
    h["argparse.ArgumentParser"] = lambda st, a, k, n: [(st, U(("argparser",)))]
    h[FMT + ".get_config"] = self.get_config
    h[GETDB] = lambda st, a, k, n: [(st, self.interp.alloc(
        st, self.interp.site(st, n, "db"), Dct({C("$builtin"): C(True)}, True)))]
    h[FUNTREE] = self.funtree
    h[TOKENIZE] = self.tokenize
    h[PARSE] = self.parse
    h[CONFCLS] = self.config

  def event(self, st, *ev):
    pass

  def may_raise(self, st, f, node):
    return False

  def do_open(self, st, args, kwargs, node):
    return FilePlugin.do_open(self, st, args, kwargs, node)[:1]

  def fork_raise(self, st, ok, exc, node, msg):
    return [(st, ok)]

  def inline_ok(self, st, info, args, kwargs):
    return FilePlugin.inline_ok(self, st, info, args, kwargs) or \
        info.qual.startswith(PCTX + ".")

  def get_config(self, st, args, kwargs, node):
    return [(st, U(("cfgdict",) + tuple(args) + tuple(v for _, v in sorted(kwargs.items()))))]

  def config(self, st, args, kwargs, node):
    src = list(args) + [v for _, v in sorted(kwargs.items())]
    user = any(mentions(self.interp.resolve(st, v), lambda x: isinstance(x, U) and x.key[0] == "cfgdict")
               or self.holds(st, v) for v in src)
    return [(st, U(("cfg", "user" if user else "default", self.interp.where(st, node))))]

  def holds(self, st, v):
    o = st.heap.get(v) if isinstance(v, Ref) else None
    if isinstance(o, Dct):
      return any(mentions(x, lambda y: isinstance(y, U) and y.key[0] == "cfgdict") for x in o.items.values()) or \
          any(isinstance(k, U) and k.key[0] == "cfgdict" for k in o.items) or o.open
    return False

  def funtree(self, st, args, kwargs, node):
    a = self.interp.resolve(st, args[0] if args else list(kwargs.values())[0])
    return [(st, self.interp.alloc(st, self.interp.site(st, node, "ft"), Dct({C("$spec"): a}, True)))]

  def tokenize(self, st, args, kwargs, node):
    return [(st, self.interp.alloc(st, self.interp.site(st, node, "tok"),
                                   Inst("Tokens", {"$of": args[0] if args else NONE, "$done": C(False)})))]

  def on_attr(self, st, base, name, node):
    if isinstance(base, U) and base.key[0] == "cfg" and name == "clone":
      return [(st, U(("cloner", base)))]
    if isinstance(base, Ref) and isinstance(st.heap.get(base), Inst) and st.heap[base].klass == "Tokens":
      return [(st, U(("tokattr", base, name)))]
    return FilePlugin.on_attr(self, st, base, name, node)

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, U) and f.key[0] == "cloner":
      return [(st, f.key[1])]
    if isinstance(f, Ext) and f.name in ("copy.copy", "copy.deepcopy") and args \
        and isinstance(args[0], U) and args[0].key[0] == "cfg":
      return [(st, args[0])]
    if isinstance(f, Ext) and f.name in ("sys.exit", "exit"):
      return [(st, Sig("raise", ExcV("SystemExit", NONE)))]
    if isinstance(f, Ext) and f.name in ("list", "tuple") and len(args) == 1 and self.is_tokens(st, args[0]):
      return [(st, self.interp.alloc(st, self.interp.site(st, node, "tok"), st.heap[args[0]]))]
    if not (isinstance(f, (FnV, Bound)) and getattr(f, "info", None) is not None and
            (f.info.qual == PARSE or f.info.mod.name == self.mod)):
      for a in list(args) + list(kwargs.values()):
        if self.is_tokens(st, a) and st.heap[a].attrs["$done"] == C(True):
          self.bad(st, node, "tokens-consumed",
                   "a token list is used after the parser has consumed it: %s sees nothing" % ast.unparse(node)[:60])
    return FilePlugin.on_call(self, st, f, args, kwargs, node)

  def is_tokens(self, st, v):
    return isinstance(v, Ref) and isinstance(st.heap.get(v), Inst) and st.heap[v].klass == "Tokens"

  def bad(self, st, node, rule, msg):
    self.ctx.violation(rule, "%s [%s]" % (self.mod, rule), self.interp.where(st, node), msg)

  def parse(self, st, args, kwargs, node):
    ctx = self.ctx
    where = self.interp.where(st, node)
    self.seen.add(where)
    ctx.count("parser_call_paths")
    toks = args[0] if args else kwargs.get("tokens", NONE)
    if self.is_tokens(st, toks):
      o = st.heap[toks]
      if o.attrs["$done"] == C(True):
        self.bad(st, node, "tokens-consumed", "the same token list is parsed twice")
      st.heap[toks] = Inst("Tokens", dict(o.attrs, **{"$done": C(True)}))
    c = args[1] if len(args) > 1 else kwargs.get("ctx", NONE)
    c = self.interp.resolve(st, c)
    o = st.heap.get(c) if isinstance(c, Ref) else None
    if c == NONE:
      self.bad(st, node, "default-grammar", "the parser is given no context: built-in commands and default configuration")
    elif isinstance(o, Dct):
      self.bad(st, node, "no-context", "the parser is given a dictionary where it expects a ParseContext")
    elif isinstance(o, Inst) and isinstance(o.klass, Klass) and o.klass.qual == PCTX:
      self.context(st, o, node)
    else:
      self.bad(st, node, "no-context", "the parser is given %s, which is no ParseContext made here" % show(c))
    if self.stop:
      return [(st, Sig("raise", ExcV("SystemExit", NONE)))]
    return [(st, U(("tree",)))]

  def domain(self, st, u):
    if u.key[0] in ("cfg", "cfgdict", "tree"):
      return ("out", frozenset([NONE]))
    return FilePlugin.domain(self, st, u)

  def context(self, st, o, node):
    db = self.interp.resolve(st, o.attrs.get("parse_db", NONE))
    cfg = self.interp.resolve(st, o.attrs.get("config", NONE))
    d = st.heap.get(db) if isinstance(db, Ref) else None
    if isinstance(d, Dct) and C("$builtin") not in d.items and C("$spec") not in d.items and d.items \
        and all(isinstance(v, (Bound, FnV)) for v in d.items.values()):
      self.ctx.count("private_grammars")
      return
    if not isinstance(d, Dct):
      self.bad(st, node, "no-database", "the context has no command database made here: %s" % show(db))
      return
    if C("$builtin") not in d.items:
      self.bad(st, node, "no-builtins", "the database lacks the built-in commands")
    spec = d.items.get(C("$spec"))
    if spec is None:
      self.bad(st, node, "no-user-commands", "the database is not extended by the user's additional commands")
    own = cfg if isinstance(cfg, U) else None
    if own is None or own.key[0] != "cfg" or own.key[1] != "user":
      self.bad(st, node, "default-config", "the context does not carry the user's configuration (%s)" % show(cfg))
    elif spec is not None:
      spec = self.interp.resolve(st, spec)
      if not mentions(spec, lambda x: x == own):
        self.bad(st, node, "other-config", "the additional commands come from %s, not from the configuration in the context"
                 % show(spec))
      elif not (isinstance(spec, U) and spec.key[0] == "attr" and spec.key[2] == "fn_spec"):
        self.bad(st, node, "no-user-commands", "the database is extended by %s, not by parse.fn_spec" % show(spec))


# -- trees are read only

MUTATORS = {"append", "insert", "pop", "remove", "clear", "extend", "sort", "reverse",
            "update", "setdefault", "popitem", "add", "discard", "__setitem__"}
TREE = ("tree",)      # a node
TLIST = ("tlist",)    # a list which belongs to a node
OWNED = frozenset([TREE, TLIST])


class TreeFlow(Flow):
  """Value sets with one more value: a node (or part) of a parse tree."""

  def _values(self, e):
    if isinstance(e, ast.Attribute):
      b = self.values(e.value)
      if TREE in b:
        if e.attr in ("spelling", "lineno", "line", "col", "node_type", "type", "begin", "end", "count"):
          return Flow._values(self, e)
        return [TLIST if e.attr in self.listattrs() else TREE]
    if isinstance(e, ast.Subscript):
      if self.values(e.value) & OWNED and not isinstance(e.slice, ast.Slice):
        return [TREE]
      if self.values(e.value) & OWNED:
        return [("seq", frozenset([TREE]))]
    return Flow._values(self, e)

  def listattrs(self):
    """Attributes which the node classes always initialise with a list."""
    if not hasattr(self, "_la"):
      got = {}
      for m in self.model.modules.values():
        if not m.name.startswith("cmakelang.parse"):
          continue
        for n in ast.walk(m.tree):
          if isinstance(n, ast.Assign):
            for t in n.targets:
              if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                got.setdefault(t.attr, set()).add(isinstance(n.value, (ast.List, ast.ListComp)))
      self._la = {a for a, v in got.items() if v == {True}}
    return self._la

  def name(self, e):
    vs = set(Flow.name(self, e))
    if vs & OWNED:
      for t, pol in guards(e):
        for a, p in atoms(t, pol):
          if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "isinstance" \
              and len(a.args) == 2 and isinstance(a.args[0], ast.Name) and a.args[0].id == e.id \
              and enclosing(a) is enclosing(e):
            ks = {x.id for x in ast.walk(a.args[1]) if isinstance(x, ast.Name)}
            if ks <= {"list", "tuple"} and ks:
              vs -= {TREE} if p else {TLIST}
    return vs

  def elements(self, vs):
    out = set(Flow.elements(self, [v for v in vs if v not in OWNED]))
    if OWNED & set(vs):
      out.add(TREE)
    return frozenset(out)

  def call(self, e):
    m = self.module_of(e)
    ent = self.model.resolve_expr(m, e.func) if dotted(e.func) else None
    if isinstance(ent, FunctionInfo) and ent.qual == PARSE:
      return [TREE]
    if isinstance(e.func, ast.Attribute) and self.values(e.func.value) & OWNED:
      nm = e.func.attr
      if nm in ("pop", "get") or nm.startswith("__"):
        return [TREE]
      cands = [d for d in self.defs.get(nm, []) if self.module_of(d).name.startswith("cmakelang.parse")]
      if cands:
        if all(self.fresh(d) for d in cands):
          return [("seq", frozenset([TREE]))]
        if nm in ("get_location", "get_funname", "count_newlines"):
          return Flow.call(self, e)
        return [TREE]
    return Flow.call(self, e)

  def fresh(self, fn):
    """Every return gives a list made in this call."""
    rets = [n for n in ast.walk(fn) if isinstance(n, ast.Return) and enclosing(n) is fn]
    if not rets:
      return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))
    return all(self.fresh_expr(r.value, fn, 0) for r in rets)

  def fresh_expr(self, v, fn, depth):
    if depth > 6:
      return False
    if isinstance(v, (ast.List, ast.ListComp, ast.GeneratorExp)):
      return True
    if isinstance(v, ast.BinOp):
      return True
    if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice):
      return True
    if isinstance(v, ast.Call):
      if isinstance(v.func, ast.Name) and v.func.id in ("list", "sorted", "tuple"):
        return True
      nm = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", None)
      cands = self.defs.get(nm, [])
      return bool(cands) and all(c is fn or all(
          self.fresh_expr(r.value, c, depth + 1) for r in ast.walk(c)
          if isinstance(r, ast.Return) and enclosing(r) is c) for c in cands)
    if isinstance(v, ast.Name):
      vals = []
      for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets):
          vals.append(n.value)
        elif isinstance(n, (ast.For, ast.AugAssign)) and binds(n.target, v.id) and isinstance(n, ast.For):
          return False
      return bool(vals) and all(self.fresh_expr(x, fn, depth + 1) for x in vals)
    return False


def readonly(ctx, model, mods):
  flow = TreeFlow(model)
  todo = []
  for mn in mods:
    m = model.modules[mn]
    for n in ast.walk(m.tree):
      if isinstance(n, (ast.FunctionDef,)):
        todo.append((m, n))
  helpers = set()
  done = set()
  while todo:
    m, fn = todo.pop()
    if id(fn) in done:
      continue
    done.add(id(fn))
    ctx.count("analysis_functions")
    k = getattr(fn, "_parent", None)
    q = "%s.%s%s" % (m.name, k.name + "." if isinstance(k, ast.ClassDef) else "", fn.name)
    own = bool(m.name.startswith("cmakelang.parse") and isinstance(k, ast.ClassDef))
    selfname = fn.args.args[0].arg if own and fn.args.args else None

    def is_tree(e):
      if selfname and isinstance(e, ast.Name) and e.id == selfname:
        return True
      if selfname and isinstance(e, (ast.Attribute, ast.Subscript)):
        return is_tree(e.value)
      return bool(flow.values(e) & OWNED)

    for n in ast.walk(fn):
      if enclosing(n) is not fn:
        continue
      tgt = []
      if isinstance(n, ast.Assign):
        tgt = n.targets
      elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
        tgt = [n.target]
      elif isinstance(n, ast.Delete):
        tgt = n.targets
      for t in tgt:
        for x in ast.walk(t):
          if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            ctx.count("writes")
            if isinstance(x, ast.Attribute) and x.attr in ("parent", "_parent"):
              continue
            if is_tree(x.value):
              ctx.violation("tree-written", "%s %s" % (q, ast.unparse(x)), "%s:%d" % (m.relpath, n.lineno),
                            "analysing a tree writes %s in it" % ast.unparse(x))
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
        nm = n.func.attr
        if nm in MUTATORS:
          ctx.count("writes")
          # a list of nodes made here is the analysis's own
          if is_tree(n.func.value):
            ctx.violation("tree-written", "%s %s" % (q, ast.unparse(n.func)), "%s:%d" % (m.relpath, n.lineno),
                          "analysing a tree calls %s on a part of it" % ast.unparse(n.func))
        elif is_tree(n.func.value):
          for d in flow.defs.get(nm, []):
            dm = flow.module_of(d)
            if dm.name.startswith("cmakelang.parse") and isinstance(getattr(d, "_parent", None), ast.ClassDef):
              if d.args.args and d.args.args[0].arg == "self":
                todo.append((dm, d))
  ctx.count("analysis_modules", len(mods))


def entries(model, mod):
  """Entry points: the program's main, else the functions that parse."""
  m = model.modules[mod]
  if mod in (FMT, LINT) and mod + ".process_file" in model.functions:
    return [mod + ".process_file"]
  for nm in ("main", "inner_main"):
    if mod + "." + nm in model.functions:
      return [mod + "." + nm]
  return []


def relevant(model, mod):
  """Functions of the module that take part in building a parser call."""
  m = model.modules[mod]
  fns = {q: f for q, f in model.functions.items() if f.mod is m}
  rel = set()
  while True:
    n = len(rel)
    for q, f in fns.items():
      if q in rel:
        continue
      for c in ast.walk(f.node):
        if not isinstance(c, ast.Call):
          continue
        ent = model.resolve_expr(m, c.func) if dotted(c.func) else None
        qual = getattr(ent, "qual", None)
        meth = c.func.attr if isinstance(c.func, ast.Attribute) else None
        if qual in (PARSE, TOKENIZE, GETDB, FUNTREE, PCTX, CONFCLS, FMT + ".get_config") or qual in rel or \
            (meth and any(r.endswith("." + meth) and fns[r].klass for r in rel)):
          rel.add(q)
          # whatever its arguments are computed by
          names = {x.attr if isinstance(x, ast.Attribute) else x.id for a in list(c.args) + c.keywords
                   for x in ast.walk(a) if isinstance(x, (ast.Attribute, ast.Name))}
          rel |= {r for r in fns if qual == PCTX and r.rsplit(".", 1)[1] in names}
    if len(rel) == n:
      return rel


def run(ctx):
  model = ctx.model
  ctx.rule("every parser call of a tool gets the built-in commands, the additional commands of the user's "
           "configuration, and that same configuration; token lists are not used after parsing")
  ctx.rule("code which analyses a parse tree does not write into it (parent links excepted)")
  for q in (PARSE, TOKENIZE, GETDB, FUNTREE):
    model.function(q)
  t = tools(model)
  for mod in sorted(t):
    ents = entries(model, mod)
    if not ents:
      ctx.undecide("%s: no entry point" % mod)
      continue
    seen = set()
    rel = relevant(model, mod)
    opaque = [f for f, i in model.functions.items() if i.mod.name == mod and f not in rel]
    for q in ents:
      for stop in (False, True):
        p = P(ctx, model, mod, opaque)
        p.stop = stop
        info = model.function(q)

        def setup(st, p=p, info=info):
          # where a driver is entered below main, its configuration is the one
          # whose content C15 decides
          return [U(("cfg", "user", "param")) if x == "config" else U(("param", x)) for x in info.params], {}
        try:
          run_entry(model, p, q, setup, max_steps=150000)
        except AnalysisError as ex:
          seen |= p.seen
          if stop and not p.seen:
            ctx.undecide("%s: %s" % (q, ex))
          ctx.count("paths_cut_after_parsing")
          continue
        seen |= p.seen
        break
    ctx.count("tools")
    ctx.sample({"tool": mod, "parser calls": sorted(seen)})
    for n in t[mod]:
      w = "%s:%d" % (model.modules[mod].relpath, n.lineno)
      if w not in seen:
        ctx.undecide("%s: no path from %s reaches this parser call" % (w, ents))
  mods = [m for m in model.modules if m.startswith("cmakelang.lint") or m in (
      "cmakelang.annotate", "cmakelang.render", "cmakelang.genparsers", "cmakelang.parse.printer", FMT)]
  readonly(ctx, model, mods)
  ctx.expect("tools", 4)
  ctx.expect("parser_call_paths", 5)
  ctx.expect("analysis_functions", 40)
