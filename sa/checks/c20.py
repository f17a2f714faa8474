"""C20: every report site against the lint database.

The database is read as the constant table it is.  For every call of
record_lint the identifiers which can reach its first argument are computed by
a whole-program value-set analysis (through locals, dictionaries, loops and
helper parameters); each is looked up, and the values supplied are counted and
compared in kind with the placeholders of its message.  Thresholds printed by a
message must be those its guard compares, strictly and in the right direction."""
import ast
import string

from ..confmodel import ConfModel
from ..flow import Flow, enclosing, guards, atoms, expand, unbound_names
from ..model import AnchorError
from .c19 import literal

DB = "cmakelang.lint.lintdb"
UTIL = "cmakelang.lint.lint_util"


def database(ctx, model):
  """idstr -> (placeholders, lineno, kwargs)"""
  mod = model.module(DB)
  f = model.function(DB + ".get_database")
  table = None
  names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
  for s in mod.tree.body:
    if isinstance(s, ast.Assign) and isinstance(s.value, (ast.List, ast.Tuple)) and \
        any(isinstance(t, ast.Name) and t.id in names for t in s.targets):
      table = s.value
  if table is None:
    raise AnchorError("no literal lint table used by get_database")
  params = model.klass(DB + ".Lint").lookup("__init__")[1].params[1:]
  cats = categories(model)
  out = {}
  for e in table.elts:
    dups = []
    row = literal(e, mod, model, dups)
    idstr, fmt, kw = row[0], row[1], row[2] if len(row) > 2 else {}
    where = "%s:%d" % (mod.relpath, e.lineno)
    ctx.count("database_entries")
    if idstr in out:
      ctx.violation("duplicate-rule", idstr, where, "two rules share the identifier, the first is lost")
    for k in kw:
      if k not in params[2:]:
        ctx.violation("unknown-metadata", "%s %s" % (idstr, k), where, "Lint() takes no such argument")
    if cats is not None and idstr[:1] not in cats:
      ctx.violation("unknown-category", idstr, where, "the summary has no name for the category of the rule")
    try:
      ph, auto = [], 0
      for _, field, spec, conv in string.Formatter().parse(fmt):
        if field is None:
          continue
        if field == "":
          field = str(auto)
          auto += 1
        ph.append((field, "" if conv else (spec or "")))
    except ValueError as ex:
      ctx.violation("bad-message", idstr, where, "the message is no format string: %s" % ex)
      continue
    out[idstr] = (ph, where, kw)
  return out


def categories(model):
  k = model.klass(UTIL + ".GlobalContext")
  for s in k.node.body:
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict):
      ks = [x.value for x in s.value.keys if isinstance(x, ast.Constant)]
      if ks and all(isinstance(x, str) and len(x) == 1 for x in ks):
        return set(ks)
  return None


class Sites:
  def __init__(self, ctx, model):
    self.ctx, self.model = ctx, model
    self.flow = Flow(model)
    self.db = database(ctx, model)
    self.used = set()
    self.unresolved = 0
    self.optkind = option_kinds(model)

  def kinds(self, e):
    out = set()
    for v in self.flow.values(e):
      if v[0] == "opt":
        out.add(self.optkind.get(v[1]))
      else:
        out.add(self.flow.kind(v))
    return out

  def run(self):
    n = 0
    for c in self.flow.calls.get("record_lint", []):
      m = self.flow.module_of(c)
      fn = enclosing(c)
      if m.name == UTIL and fn is not None and fn.name == "record_lint":
        continue
      n += 1
      self.site(c, m, fn)
    self.ctx.count("report_sites", n)
    if not self.unresolved:
      for i in sorted(self.db):
        if i not in self.used:
          self.ctx.violation("never-reported", i, self.db[i][1],
                             "the rule is documented but nothing reports it")

  def site(self, c, m, fn):
    ctx = self.ctx
    where = "%s:%d" % (m.relpath, c.lineno)
    q = "%s.%s" % (m.name, fn.name if fn else "<module>")
    k = getattr(fn, "_parent", None)
    if isinstance(k, ast.ClassDef):
      q = "%s.%s.%s" % (m.name, k.name, fn.name)
    if any(kw.arg is None for kw in c.keywords) or any(isinstance(a, ast.Starred) for a in c.args):
      self.unresolved += 1
      ctx.undecide("%s: the arguments are computed" % where)
      return
    args = list(c.args)
    named = {kw.arg: kw.value for kw in c.keywords}
    if not args and "idstr" in named:
      args = [named.pop("idstr")]
    if not args:
      ctx.violation("no-rule", q, where, "no rule is named")
      return
    ids = set()
    for v in self.flow.values(args[0]):
      if v[0] == "str":
        ids.add(v[1])
      else:
        self.unresolved += 1
        ctx.undecide("%s: the rule reported is not a constant (%s)" % (where, ast.unparse(args[0])))
    vals = args[1:]
    loc = named.pop("location", None)
    if fn is not None:
      for nm in unbound_names(fn, c):
        ctx.violation("unbound-value", "%s %s" % (q, nm), where,
                      "`%s` is not assigned on every path to the report" % nm)
    for i in sorted(ids):
      self.used.add(i)
      ctx.count("obligations")
      if i not in self.db:
        ctx.violation("unknown-rule", "%s %s" % (q, i), where, "%s is not in the lint database" % i)
        continue
      ph = self.db[i][0]
      need = {f for f, _ in ph}
      pos = sorted(f for f in need if f.isdigit())
      if len(pos) > len(vals) or (need - set(pos)) - set(named):
        ctx.violation("missing-value", "%s %s" % (q, i), where,
                      "the message of %s needs %d values, %d are given: reporting raises" % (i, len(need), len(vals) + len(named)))
      elif len(pos) < len(vals) or set(named) - need:
        extra = vals[len(pos)] if len(vals) > len(pos) else list(named.values())[0]
        ctx.violation("unused-value", "%s %s %s" % (q, i, ast.unparse(extra)), where,
                      "the message of %s has no place for %s" % (i, ast.unparse(extra)))
      for f, spec in ph:
        e = vals[int(f)] if f.isdigit() and int(f) < len(vals) else named.get(f)
        if e is None:
          continue
        ctx.count("values")
        ks = self.kinds(e)
        t = spec[-1:] if spec[-1:].isalpha() else ""
        want = {"s": "str", "d": "int"}.get(t)
        if want and ks and None not in ks and want not in ks:
          ctx.violation("wrong-kind", "%s %s %s" % (q, i, ast.unparse(e)), where,
                        "%s is %s where the message of %s formats {:%s}: reporting raises"
                        % (ast.unparse(e), "/".join(sorted(ks)), i, spec))
      self.threshold(c, i, vals, q, where)
    if loc is not None:
      ctx.count("locations")
      vs = self.flow.values(loc)
      ks = self.kinds(loc)
      if ks and None not in ks and "tuple" not in ks:
        ctx.violation("bad-location", q, where, "the location is %s, not a tuple: sorting or printing the report raises"
                      % "/".join(sorted(ks)))
      for v in vs:
        if v[0] == "tup":
          for x in v[1]:
            kk = {self.flow.kind(y) for y in x}
            if kk and None not in kk and "int" not in kk:
              ctx.violation("bad-location", q + " element", where, "a location has numbers, not %s" % "/".join(sorted(kk)))

  def threshold(self, c, i, vals, q, where):
    """Options named max_*/min_*/*_width the guards compare: strict, right way."""
    lits = []
    for t, pol in guards(c):
      lits.extend(atoms(t, pol))
    compared = {}
    for t, pol in lits:
      if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        continue
      l, r, op = t.left, t.comparators[0], t.ops[0]
      for a, b, flip in ((l, r, False), (r, l, True)):
        for v in self.flow.values(b):
          if v[0] != "opt":
            continue
          name = v[1].split(".")[1]
          way = ">" if name.startswith("max_") or name.endswith("_width") else \
              "<" if name.startswith("min_") else None
          if way is None:
            continue
          o = {ast.Gt: ">", ast.GtE: ">=", ast.Lt: "<", ast.LtE: "<=", ast.Eq: "==", ast.NotEq: "!="}.get(type(op))
          if flip:
            o = {">": "<", ">=": "<=", "<": ">", "<=": ">="}.get(o, o)
          if not pol:
            o = {">": "<=", ">=": "<", "<": ">=", "<=": ">"}.get(o)
          compared.setdefault(v[1], []).append((way, o, expand(a)))
    shown = {}
    for e in vals:
      vs = self.flow.values(e)
      for v in vs:
        if v[0] == "opt" and len(vs) == 1:
          shown[v[1]] = e
    local = not any(isinstance(n, ast.Name) and n.id in {x.arg for x in enclosing(c).args.args}
                    for e in vals for n in ast.walk(e) if enclosing(c) is not None) if enclosing(c) else True
    for o, cs in sorted(compared.items()):
      self.ctx.count("thresholds")
      # the literal that sends control here; earlier branches of an elif
      # chain on the same option are weaker
      if o in shown or not shown:
        if shown and local and vals and not any(expand(e) in [a for _, _, a in cs] for e in vals if e is not shown[o]):
          self.ctx.violation("measure-mismatch", "%s %s" % (q, i), where,
                             "the value printed beside %s is not the one compared with it" % o)
        own = [x for x in cs]
        if o in shown and not any(op == way for way, op, _ in own):
          self.ctx.violation("threshold", "%s %s" % (q, i), where,
                             "%s is reported when the value is %s the limit %s" % (i, own[0][1], o))
    for o in shown:
      name = o.split(".")[1]
      if (name.startswith(("max_", "min_")) or name.endswith("_width")) and o not in compared and local:
        g = [ast.unparse(t) for t, _ in lits]
        used = any(("opt", o) in self.flow.values(n) for t, _ in lits for n in ast.walk(t) if isinstance(n, ast.Attribute))
        if not used:
          self.ctx.violation("threshold-unused", "%s %s" % (q, i), where,
                             "the report prints the limit %s but its guard does not compare it" % o)
    # unprinted limits: the innermost guard decides
    if not shown and lits:
      t, pol = atoms(*guards(c)[0])[0]
      for o, cs in sorted(compared.items()):
        if any(("opt", o) in self.flow.values(n) for n in ast.walk(t) if isinstance(n, ast.Attribute)) \
            and not any(op == way for way, op, _ in cs):
          self.ctx.violation("threshold", "%s %s" % (q, i), where,
                             "%s is reported when the value is %s the limit %s" % (i, cs[0][1], o))


def option_kinds(model):
  """section.option -> kind of its default."""
  conf = ConfModel(model)
  kind = {str: "str", int: "int", bool: "int", list: "list", tuple: "list", dict: "dict", float: "float"}
  out = {}
  for prefix, fld in conf.paths():
    d = None
    if fld.call.args:
      try:
        d = kind.get(type(ast.literal_eval(fld.call.args[0])))
      except ValueError:
        d = None
    out[".".join(prefix[-1:] + (fld.name,))] = d
  return out


def run(ctx):
  m = ctx.model
  ctx.rule("each identifier that reaches record_lint is in the lint table, with as many values as its message has places, of formattable kinds")
  ctx.rule("identifiers are unique, their category is named, their message is a format string, each is reported somewhere")
  ctx.rule("values of a report are assigned on every path; limits printed are those compared, strictly")
  s = Sites(ctx, m)
  s.run()
  ctx.expect("report_sites", 20)
  ctx.expect("database_entries", 20)
  ctx.expect("obligations", 20)
  ctx.sample({"reported": sorted(s.used)[:8]})
