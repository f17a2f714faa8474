"""C26: command-line options map to configuration options one to one.

The functions which register arguments with argparse are interpreted
abstractly over the real set of declared options (names and defaults as the
class bodies declare them), giving every flag and destination of every
program.  get_argdict is then interpreted over a namespace which holds every
destination at once, each value tagged with the destination it came from."""
import ast

from ..absint import (C, Ext, U, Tup, Inst, Lst, Sig, NONE, TRUE, FALSE, ExcV, show, BM, Ref,
                      ClsV, Dct)
from ..cli import run_entry
from ..confmodel import ConfModel, ConfPlugin, UTIL, CONF
from ..model import AnchorError, Klass, FunctionInfo

FMT = "cmakelang.format.__main__"
PROGRAMS = (("cmakelang.format.__main__", "setup_argparser", True),
            ("cmakelang.lint.__main__", "setup_argparse", True),
            ("cmakelang.annotate", "setup_argparser", False))
PARSER = U(("argparser",))
GETARG = FMT + ".get_argdict"


class P(ConfPlugin):
  def initial(self):
    p = ConfPlugin.initial(self)
    p.d["args"] = ()
    return p

  def event(self, st, *ev):
    pass

  def may_raise(self, st, f, node):
    return False

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, U) and f.key[0] == "attr":
      if f.key[2] == "add_argument":
        self.flag(st, args, kwargs, node)
        return [(st, U(("action",)))]
      if f.key[2] in ("add_argument_group", "add_mutually_exclusive_group"):
        return [(st, U(("group", f.key[1])))]
      if f.key[2] in ("register", "set_defaults", "add_subparsers"):
        return [(st, NONE)]
    if isinstance(f, Ext) and f.name in ("hasattr", "getattr") and len(args) >= 2 \
        and isinstance(args[0], ClsV) and self.is_conf(args[0].klass):
      # at class level, a section descriptor raises AttributeError and an
      # option descriptor gives its default
      nm = self.interp.resolve(st, args[1])
      if isinstance(nm, C) and f.name == "hasattr":
        outs = []
        for s, v in self.interp.get_attr(st.copy(), args[0], nm.v, node):
          s.p.d.update(st.p.d)
          outs.append(isinstance(v, Sig))
        known = any(mname == nm.v for k in args[0].klass.mro() if isinstance(k, Klass)
                    for mname in k.members)
        if known and outs and not any(outs):
          return [(st, TRUE)]
        if not known or all(outs):
          return [(st, FALSE)]
    return ConfPlugin.on_call(self, st, f, args, kwargs, node)

  def on_attr(self, st, base, name, node):
    if name == "__doc__":
      return [(st, C("Options."))]
    return ConfPlugin.on_attr(self, st, base, name, node)

  def flag(self, st, args, kwargs, node):
    flags, unknown = [], False
    for a in args:
      a = self.interp.resolve(st, a)
      if isinstance(a, C) and isinstance(a.v, str):
        flags.append(a.v)
      else:
        unknown = True
    kw = {}
    for k, v in kwargs.items():
      kw[k] = self.interp.resolve(st, v)
    dest = kw.get("dest")
    if dest is None:
      longs = [x for x in flags if x.startswith("--")] or flags
      dest = longs[0].lstrip("-").replace("-", "_") if longs else None
    else:
      dest = dest.v if isinstance(dest, C) else None
    act = kw.get("action")
    if isinstance(act, C) and act.v in ("version", "help"):
      dest = "$" + act.v
    self.found.append((tuple(flags), dest, tuple(sorted(kw.items(), key=lambda x: x[0])),
                       self.interp.where(st, node), unknown, tuple(st.path(4))))
    st.p.d["args"] = st.p.d["args"] + (C(len(self.found) - 1),)


def val(x):
  if isinstance(x, (list, tuple)):
    return Tup(tuple(val(y) for y in x))
  return C(x)


def default(p, f):
  """Default of an option as a Val builder."""
  node = f.default
  if node is None:
    return NONE
  if isinstance(node, ast.Dict) or (isinstance(node, ast.Name) and node.id.isupper()
                                    and False):
    return lambda st: p.interp.alloc(st, ("dflt", f.klass.qual, f.name), Dct({}))
  try:
    x = ast.literal_eval(node)
    if isinstance(x, (dict, set)):
      return lambda st: p.interp.alloc(st, ("dflt", f.klass.qual, f.name), Dct({}))
    if isinstance(x, list):
      return lambda st: p.interp.alloc(st, ("dflt", f.klass.qual, f.name), Lst(tuple(val(y) for y in x)))
    return val(x)
  except ValueError:
    pass
  ent = f.klass.mod and p.interp.model.resolve_expr(f.klass.mod, node)
  v = p.interp.const_expr(f.klass.mod, node)
  if v is not None:
    if isinstance(v, C) or isinstance(v, Tup):
      return v
  kind = const_kind(p.interp.model, f.klass.mod, node)
  if kind == "dict":
    return lambda st: p.interp.alloc(st, ("dflt", f.klass.qual, f.name), Dct({}))
  if kind == "str":
    return C("<text>")
  if kind == "list":
    return lambda st: p.interp.alloc(st, ("dflt", f.klass.qual, f.name), Lst((C("<item>"),)))
  return U(("default", f.name))


def const_kind(model, mod, node):
  seen = 0
  while isinstance(node, (ast.Name, ast.Attribute)) and seen < 5:
    seen += 1
    ent = model.resolve_expr(mod, node)
    if isinstance(ent, tuple) and len(ent) == 3 and ent[0] == "var":
      mod = ent[1]
      nm = ent[2]
      node = None
      for s in mod.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in s.targets):
          node = s.value
    else:
      return None
  if isinstance(node, (ast.Dict, ast.DictComp)):
    return "dict"
  if isinstance(node, (ast.List, ast.ListComp, ast.Tuple)):
    return "list"
  if isinstance(node, (ast.Constant, ast.JoinedStr)):
    return "str"
  return None


def real_layout(p, conf):
  out = {}
  for q in sorted(conf.classes):
    k = conf.classes[q]
    if not k.mod.name == CONF:
      continue
    specs = []
    items = [(f.call.lineno, ("field", f.name, default(p, f))) for f in conf.fields[q]]
    items += [(c.lineno, ("sub", n, s)) for n, s, c in conf.subtrees[q] if isinstance(s, Klass)]
    for _, s in sorted(items, key=lambda x: x[0]):
      specs.append(s)
    out[q] = specs
  return out


def instance_all(p, st, conf, k):
  attrs = {}
  for n, s, _ in conf.subtrees.get(k.qual, []):
    if isinstance(s, Klass):
      attrs["_" + n] = instance_all(p, st, conf, s)
  return p.interp.alloc(st, ("cfg", k.qual), Inst(k, attrs))


def run(ctx):
  m = ctx.model
  conf = ConfModel(m)
  ctx.rule("no two arguments of a program share a flag or a destination; an option's destination is its name")
  ctx.rule("get_argdict keeps exactly the given configuration options, false-like values included, "
           "and drops the program's own options")
  options = {}
  for path, f in conf.paths():
    options.setdefault(f.name, []).append((path, f))
  ctx.count("declared_options", sum(len(v) for v in options.values()))
  sections = {n for n, _, _ in conf.sections()}
  for name, fs in sorted(options.items()):
    if len(fs) > 1:
      ctx.violation("ambiguous-option", name, "%s:%d" % (fs[1][1].klass.mod.relpath, fs[1][1].call.lineno),
                    "declared in %s: a command-line or flat setting of it reaches only the first" %
                    " and ".join(".".join(pp) for pp, _ in fs))
    if name in sections:
      ctx.violation("ambiguous-option", name + " (section)", "%s:%d" % (
          fs[0][1].klass.mod.relpath, fs[0][1].call.lineno), "an option has the name of a section")
  root = conf.root()
  dests_all = {}
  for modname, fname, has_conf in PROGRAMS:
    qual = modname + "." + fname
    info = m.function(qual)
    p = P(conf, {}, [modname])
    p.found = []

    def on_conf(st, args, kwargs, node, p=p):
      return [(st, instance_all(p, st, conf, root))]
    p.handlers[root.qual] = on_conf

    def setup(st, p=p):
      lay = real_layout(p, conf)
      p.layout = {q: [tuple(x(st) if callable(x) and not isinstance(x, Klass) else x for x in s) for s in v]
                  for q, v in lay.items()}
      p.make_descriptors(st)
      return [PARSER], {}
    it, res = run_entry(m, p, qual, setup)
    words = {}
    for st, v in res:
      ctx.count("registration_paths")
      if isinstance(v, Sig):
        ctx.violation("registration-raises", qual, info.where, "raises %s" % v.val.cls)
        continue
      flags, dests = {}, {}
      byopt = set()
      for ci in st.p.d["args"]:
        fl, dest, kw, where, unknown, path = p.found[ci.v]
        ctx.count("arguments_judged")
        if unknown or dest is None:
          ctx.violation("unknown-flag", "%s %s" % (qual, fl or where.split(":")[0]), where,
                        "a flag or destination is not a constant derived from the option's name")
          continue
        isopt = "config_util" in where
        if isopt and dest not in options:
          ctx.violation("wrong-destination", "%s %s" % (qual, " ".join(fl)), where,
                        "the flag of an option has destination %r, which is no option" % dest)
        if isopt and fl and not any(x.startswith("--") for x in fl):
          ctx.violation("not-a-flag", "%s %s" % (qual, " ".join(fl)), where,
                        "an option is registered as a positional argument")
        for x in fl:
          if not x.startswith("-"):
            continue
          if x in flags:
            ctx.violation("duplicate-flag", "%s %s" % (qual, x), where,
                          "flag already registered at %s" % flags[x])
          flags[x] = where
        if dest in dests and not dest.startswith("$"):
          ctx.violation("duplicate-destination", "%s %s" % (qual, dest), where,
                        "%s and %s store to the same destination" % (" ".join(fl), dests[dest][0]))
        dests[dest] = (" ".join(fl), isopt)
        if isopt:
          byopt.add(dest)
          d = dict(kw)
          f = options.get(dest, [((), None)])[0][1]
          if f is not None:
            bool_const(ctx, qual, dest, f, d, where)
            converts(ctx, it, st, qual, dest, f, d, where, words)
            dflt = default(p, f)
            if d.get("nargs") == C("?") and "const" not in d:
              ctx.violation("flag-without-value", "%s %s" % (qual, dest), where,
                            "the flag given without a value is the same as not given")
      if has_conf:
        skipped = sorted(set(options) - byopt)
        for name in skipped:
          f = options[name][0][1]
          dv = default(p, f)
          isdict = callable(dv) and const_kind(m, f.klass.mod, f.default) == "dict" or isinstance(f.default, ast.Dict)
          if not isdict:
            ctx.violation("option-without-flag", "%s %s" % (qual, name),
                          "%s:%d" % (f.klass.mod.relpath, f.call.lineno),
                          "the option cannot be set on the command line")
          else:
            ctx.count("dictionary_options_without_flag")
      dests_all[qual] = {d: o for d, (_, o) in dests.items() if not d.startswith("$")}

  # ---- leftovers of get_argdict
  info = m.function(GETARG)
  callers = [q for q in dests_all]
  for qual in callers:
    modname = qual.rsplit(".", 1)[0]
    for label in ("all given", "none given", "false-like"):
      p = P(conf, {}, [FMT])

      def setup(st, p=p):
        lay = real_layout(p, conf)
        p.layout = {q: [tuple(x(st) if callable(x) and not isinstance(x, Klass) else x for x in s) for s in v]
                    for q, v in lay.items()}
        p.make_descriptors(st)
        attrs = {}
        for d, isopt in sorted(dests_all[qual].items()):
          attrs[d] = {"all given": C("value of " + d), "none given": NONE if isopt else C("value of " + d),
                      "false-like": FALSE}[label]
        return [p.interp.alloc(st, ("args",), Inst("Args", attrs))], {}
      it, res = run_entry(m, p, GETARG, setup)
      for st, v in res:
        ctx.count("argdict_paths")
        key = "%s for %s [%s]" % (GETARG, qual, label)
        o = st.heap.get(v) if isinstance(v, Ref) else None
        if not isinstance(o, Dct):
          ctx.violation("argdict-shape", key, info.where, "does not return a dictionary: %s" % show(v))
          continue
        got = {k.v if isinstance(k, C) else show(k): x for k, x in o.items.items()}
        # keys the caller itself takes out again
        popped = popped_by_caller(m, modname)
        want = {d for d, isopt in dests_all[qual].items() if isopt} if label != "none given" else set()
        for d in sorted(set(got) - want - popped):
          ctx.violation("stray-option", "%s %s" % (qual, d), info.where,
                        "%r is not a configuration option, but is passed on as one" % d)
        for d in sorted(want - set(got)):
          ctx.violation("option-dropped", "%s %s" % (qual, d), info.where,
                        "the option %r given on the command line [%s] is removed" % (d, label))
        for d in sorted(want & set(got)):
          exp = C("value of " + d) if label == "all given" else FALSE
          if got[d] != exp:
            ctx.violation("option-changed", "%s %s" % (qual, d), info.where,
                          "the value is replaced by %s" % show(got[d]))
  ctx.sample("flags: " + ", ".join(sorted(dests_all[callers[0]])[:14]))
  ctx.expect("declared_options", 55)
  ctx.expect("arguments_judged", 100)
  ctx.expect("argdict_paths", 9)
  ctx.expect("registration_paths", 3)
  ctx.expect("boolean_words", 14)
  ctx.expect("number_options", 10)


def bool_const(ctx, qual, name, f, kw, where):
  """A boolean option's flag given without value must flip the default."""
  try:
    d = ast.literal_eval(f.default) if f.default is not None else None
  except ValueError:
    return
  if not isinstance(d, bool):
    return
  ctx.count("boolean_flags")
  c = kw.get("const")
  if isinstance(c, C) and c.v == d:
    ctx.violation("flag-has-no-effect", "%s %s" % (qual, name), where,
                  "the flag without a value sets the option to its default")
  if kw.get("nargs") is None and kw.get("action") is None:
    pass


YES = ("y", "yes", "t", "true", "True", "TRUE", "1")
NO = ("n", "no", "f", "false", "False", "FALSE", "0")


def converts(ctx, it, st, qual, name, f, kw, where, words):
  """The text given for an option becomes a value of the option's type."""
  try:
    d = ast.literal_eval(f.default) if f.default is not None else None
  except ValueError:
    return
  t = kw.get("type")
  if isinstance(d, bool):
    if t is None:
      if kw.get("action") is None:
        ctx.violation("text-as-boolean", "%s %s" % (qual, name), where,
                      "the value of the boolean option stays a text, so that 'false' is true")
      return
    if t not in words:
      words[t] = []
      for w, want in [(w, True) for w in YES] + [(w, False) for w in NO]:
        for s, v in it.call(st.copy(), t, [C(w)], {}, ctx.model.function(FMT + ".main").node):
          v = it.resolve(s, v) if not isinstance(v, Sig) else v
          ctx.count("boolean_words")
          if isinstance(v, Sig) or isinstance(v, C) and v.v is not want:
            words[t].append("%r %s" % (w, "is refused" if isinstance(v, Sig) else "means %s" % v.v))
    if words[t]:
      ctx.violation("boolean-misread", show(t), where, "given for a boolean option on the command line: " +
                    ", ".join(words[t][:6]))
  elif isinstance(d, int):
    ctx.count("number_options")
    if t is None or isinstance(t, Ext) and t.name in ("str", "float", "bool"):
      ctx.violation("text-as-number", "%s %s" % (qual, name), where,
                    "the value of the numeric option becomes %s" % ("a text" if t is None else show(t)))


def popped_by_caller(model, modname):
  """Constant keys a module pops from the result of get_argdict."""
  out = set()
  mod = model.modules.get(modname)
  for n in ast.walk(mod.tree):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" \
        and n.args and isinstance(n.args[0], ast.Constant):
      out.add(n.args[0].value)
    if isinstance(n, ast.Delete):
      for t in n.targets:
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
          out.add(t.slice.value)
  return out
