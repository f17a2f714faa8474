"""C25: every configuration view covers every declared option.

Two parts.  (1) Declaration: each configuration class has a registry of its
own, every descriptor kind registers itself with its name, and every
configuration class with options is reachable from Configuration.  (2) Views:
the dictionary, ordered dictionary, text dump, command-line and clone code is
interpreted abstractly over a configuration with several sections and options
(defaulted and overridden, with false-like values), and the set of options in
the produced view is compared with the declared / overridden ones."""
import ast

from ..absint import (C, Ext, U, Tup, Inst, Lst, Sig, NONE, TRUE, FALSE, ExcV, show, BM, Ref,
                      ClsV, Dct, FnV, iter_vals)
from ..cli import run_entry, _kvals
from ..confmodel import ConfModel, ConfPlugin, UTIL, CONF
from ..model import AnchorError, Klass, FunctionInfo

OUT = U(("outfile",))
ARGP = U(("argparser",))


class P(ConfPlugin):
  def initial(self):
    p = ConfPlugin.initial(self)
    p.d["text"] = ()
    p.d["flags"] = ()
    p.d["dump"] = ()
    return p

  def event(self, st, *ev):
    pass

  def may_raise(self, st, f, node):
    return False

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, U) and f.key[0] == "attr":
      if f.key[1] == OUT and f.key[2] == "write":
        names = consts(args[0]) if args else ()
        self.wrote(st, names)
        st.p.d["dump"] = st.p.d["dump"] + tuple(self.interp.resolve(st, a) for a in args[:1])
        return [(st, NONE)]
      if f.key[2] in ("split", "splitlines"):
        return [(st, Tup(parts(f.key[1])))]
      if f.key[2] == "add_argument":
        self.flag(st, args, kwargs, node)
        return [(st, NONE)]
      if f.key[2] == "add_argument_group":
        return [(st, U(("group",)))]
    if isinstance(f, Ext) and f.name == "textwrap.wrap":
      return [(st, self.interp._mklist(st, node, parts(args[0]), "wrap"))]
    return ConfPlugin.on_call(self, st, f, args, kwargs, node)

  def on_attr(self, st, base, name, node):
    if name == "__doc__":
      return [(st, C("Options.\nMore of them."))]
    if isinstance(base, Ref) and name == "helptext":
      return [(st, C("some help"))]
    return ConfPlugin.on_attr(self, st, base, name, node)

  def on_method(self, st, base, name, args, kwargs, node):
    if name in ("split", "splitlines") and not isinstance(base, C):
      return [(st, Tup(parts(base)))]
    return ConfPlugin.on_method(self, st, base, name, args, kwargs, node)

  def wrote(self, st, names):
    t = st.p.d["text"]
    new = tuple(C(n) for n in names if C(n) not in t)
    st.p.d["text"] = t + new

  def flag(self, st, args, kwargs, node):
    st.p.d["flags"] = st.p.d["flags"] + tuple(a for a in args if isinstance(a, C))


def parts(v):
  """A text of two lines."""
  return (U(("part", v, C(0))), U(("part", v, C(1))))


VALUE, CONT = "\x01value", "\x01continued"


def render(v):
  """Text of a written value; None where it is not known."""
  if isinstance(v, C):
    return v.v if isinstance(v.v, str) else None
  if isinstance(v, Tup):
    return None
  if not isinstance(v, U):
    return None
  k = v.key
  if k[0] == "part":
    return CONT if k[2] == C(1) else render(k[1])
  if k[0] == "fresh":
    return VALUE
  if k[0] == "call" and len(k) >= 2 and isinstance(k[1], U) and k[1].key[0] == "attr" \
      and k[1].key[2] in ("rstrip", "strip"):
    return render(k[1].key[1])
  if k[0] == "mcall" and k[2] in ("rstrip", "strip", "lstrip") and len(k) == 3:
    return render(k[1])
  if k[0] == "mcall" and k[2] == "format" and isinstance(k[1], C):
    args = [render(x) for x in k[3:]]
    if any(a is None for a in args):
      return None
    try:
      return k[1].v.format(*args)
    except (IndexError, KeyError, ValueError):
      return None
  if k[0] == "bin" and k[1] == "Add":
    a, b = render(k[2]), render(k[3])
    return None if a is None or b is None else a + b
  return None


def well_formed(text, want):
  """Complaint about the text of a dump which is to set the options `want`."""
  where, got, last = None, {}, None
  for no, line in enumerate(text.split("\n")):
    body = line.lstrip(" ")
    ind = len(line) - len(body)
    if not body:
      last = None
      continue
    if body.startswith("#"):
      last = None
      continue
    if body == CONT and last == "option":
      continue
    if body.startswith("with section(") and body.endswith("):") and len(body) > 17:
      if ind:
        return "the line %r opens a section inside another" % line
      where, last = body[14:-3], "section"
      got.setdefault(where, {})
      continue
    name, eq, val = body.partition(" = ")
    if not eq or not name.isidentifier() or val != VALUE:
      return "the line %r is no setting of an option" % line.replace("\x01", "")
    if ind:
      if where is None:
        return "the line %r is indented outside of a section" % line.replace("\x01", "")
      got[where][name] = True
    else:
      where = None
      got[name] = True
    last = "option"
  for n, v in want.items():
    if isinstance(v, dict):
      miss = sorted(set(v) - set(got.get(n, {}) if isinstance(got.get(n, {}), dict) else {}))
      if miss:
        return "%s is not set inside section %s" % (", ".join(miss), n)
    elif got.get(n) is not True:
      return "%s is not set outside of the sections" % n
  return None


def consts(v):
  """String constants occurring in a value."""
  out = []
  todo = [v]
  while todo:
    x = todo.pop()
    for y in iter_vals(x):
      if isinstance(y, C) and isinstance(y.v, str):
        out.append(y.v)
      if isinstance(y, U):
        todo.extend(z for z in _kvals(y.key) if z is not y)
  return out


SECT = {"secta": ["alpha", "beta", "gamma"], "sectb": ["delta", "epsilon"], None: ["omega", "psi"]}


def build(conf, overrides):
  """Layout over the real classes: root, format section, markup section."""
  root = conf.root()
  subs = [(n, k) for n, k, _ in conf.sections() if isinstance(k, Klass)]
  ka, kb = None, None
  for n, k in subs:
    own = {x for x, mm in k.members.items() if isinstance(mm, FunctionInfo)}
    if not own:
      if ka is None:
        ka = k
      elif kb is None:
        kb = k
  if kb is None:
    raise AnchorError("no two plain configuration sections")
  layout = {root.qual: [("field", "omega", C(1)), ("sub", "secta", ka), ("sub", "sectb", kb),
                        ("field", "psi", C("x"))],
            ka.qual: [("field", n, v) for n, v in zip(SECT["secta"], (C(False), C("d"), NONE))],
            kb.qual: [("field", n, v) for n, v in zip(SECT["sectb"], (C(7), C(True)))]}
  return layout, root, ka, kb


OVERRIDES = [
    ("nothing overridden", {}),
    ("one option per section", {"secta": {"beta": C("o")}, "sectb": {"delta": C(9)}}),
    ("false-like overrides", {"secta": {"alpha": C(False), "beta": C(""), "gamma": NONE},
                              "sectb": {"delta": C(0)}, "psi": C("")}),
    ("everything overridden", {"secta": {"alpha": C(True), "beta": C("p"), "gamma": C("g")},
                               "sectb": {"delta": C(3), "epsilon": C(False)},
                               "omega": C(5), "psi": C("y")}),
]


def instance(p, st, root, layout, ka, kb, ov):
  """A configuration object with its sections instantiated and overrides set."""
  it = p.interp
  r = it.alloc(st, ("cfg",), Inst(root, {}))
  attrs = {}
  for name, k in (("secta", ka), ("sectb", kb)):
    sub = it.alloc(st, ("cfg", name), Inst(k, {"_" + o: v for o, v in ov.get(name, {}).items()}))
    attrs["_" + name] = sub
  for n in ("omega", "psi"):
    if n in ov:
      attrs["_" + n] = ov[n]
  st.heap[r] = Inst(root, attrs)
  return r


def deref(st, v):
  if isinstance(v, Ref) and isinstance(st.heap.get(v), Dct):
    return {k.v: deref(st, x) for k, x in st.heap[v].items.items() if isinstance(k, C)}
  return v


def expected(layout, ov, defaults):
  out = {}
  spec = {"secta": None, "sectb": None}
  for q, items in layout.items():
    pass
  def val(n, d, o):
    return o[n] if n in o else d
  for items in layout.values():
    for s in items:
      pass
  return out


def run(ctx):
  m = ctx.model
  conf = ConfModel(m)
  ctx.rule("each configuration class owns its registry; descriptors register under their name; "
           "every class with options is reachable from Configuration")
  ctx.rule("as_dict / as_odict / dump / add_to_argparser / get_field_names / clone cover exactly "
           "the declared options (the overridden ones when defaults are omitted)")
  base = m.klass(UTIL + ".ConfigObject")
  # ---- declarations
  reach = set()
  def walk(k):
    if k.qual in reach:
      return
    reach.add(k.qual)
    for _, sub, _c in conf.subtrees.get(k.qual, []):
      if isinstance(sub, Klass):
        walk(sub)
  walk(conf.root())
  for q, k in sorted(conf.classes.items()):
    if not k.mod.name.startswith("cmakelang.configuration"):
      continue
    ctx.count("config_classes")
    n = len(conf.fields[q]) + len(conf.subtrees[q])
    if n and not conf.registry[q]:
      ctx.violation("shared-registry", q, "%s:%d" % (k.mod.relpath, k.node.lineno),
                    "the class has no _field_registry of its own, so its options are registered in another class")
    if n and q not in reach:
      ctx.violation("unreachable-section", q, "%s:%d" % (k.mod.relpath, k.node.lineno),
                    "the options of this class are not part of Configuration")
    names = [f.name for f in conf.fields[q]] + [s[0] for s in conf.subtrees[q]]
    ctx.count("declared_options", len(conf.fields[q]))
    for nme in sorted(set(x for x in names if names.count(x) > 1)):
      ctx.violation("redeclared", "%s.%s" % (q, nme), k.mod.relpath, "option declared twice")
    # a member which shadows a descriptor, or overrides a view
    for nme, mem in k.members.items():
      if nme in names and not isinstance(mem, tuple):
        ctx.violation("shadowed", "%s.%s" % (q, nme), k.mod.relpath,
                      "the option is replaced by another class member")
  # ---- registration
  for dk in (conf.field, conf.subtree):
    _, fn = dk.lookup("__set_name__")
    if not isinstance(fn, FunctionInfo):
      raise AnchorError("%s has no __set_name__" % dk.qual)
    p = P(conf, {}, [])
    keep = {}
    def setup(st):
      lst = p.interp.alloc(st, ("reg",), Lst(()))
      owner = p.interp.alloc(st, ("owner",), Inst("Owner", {"_field_registry": lst}))
      me = p.interp.alloc(st, ("me",), Inst(dk, {"name": C("<unnamed>")}))
      st.p.d["me"], st.p.d["lst"] = me, lst
      return [me, owner, C("opt")], {}
    it, res = run_entry(m, p, fn.qual, setup)
    for st, v in res:
      ctx.count("registration_paths")
      me, lst = st.p.d["me"], st.p.d["lst"]
      if isinstance(v, Sig) or me not in st.heap[lst].items:
        ctx.violation("not-registered", fn.qual, fn.where, "a path does not register the option")
      if st.heap[me].attrs.get("name") != C("opt"):
        nm = st.heap[me].attrs.get("name")
        if not (isinstance(nm, U) and "opt" in consts(nm)):
          ctx.violation("wrong-name", fn.qual, fn.where, "the option is registered under %s" % show(nm))

  # ---- views
  layout, root, ka, kb = build(conf, None)
  decl = {"secta": dict(zip(SECT["secta"], (C(False), C("d"), NONE))),
          "sectb": dict(zip(SECT["sectb"], (C(7), C(True)))), "omega": C(1), "psi": C("x")}

  def full(ov):
    out = {"omega": ov.get("omega", decl["omega"]), "psi": ov.get("psi", decl["psi"])}
    for s in ("secta", "sectb"):
      out[s] = {n: ov.get(s, {}).get(n, d) for n, d in decl[s].items()}
    return out

  def only(ov):
    return {k: (dict(v) if isinstance(v, dict) else v) for k, v in ov.items()}

  def go(fn, args):
    p = P(conf, layout, [])
    def setup(st):
      p.make_descriptors(st)
      cfg = instance(p, st, root, layout, ka, kb, args["ov"])
      st.p.d["cfg"] = cfg
      return [cfg] + args.get("args", []), args.get("kwargs", {})
    return run_entry(m, p, fn, setup)

  def where(fn):
    return m.function(fn).where

  for oname, ov in OVERRIDES:
    for view in ("as_dict", "as_odict"):
      fn = "%s.ConfigObject.%s" % (UTIL, view)
      for wd in (TRUE, FALSE):
        for wh in (TRUE, FALSE):
          it, res = go(fn, {"ov": ov, "args": [wh, wd]})
          for st, v in res:
            ctx.count("view_paths")
            key = "%s [%s; with_defaults=%s with_help=%s]" % (fn, oname, wd.v, wh.v)
            if isinstance(v, Sig):
              ctx.violation("view-raises", key, where(fn), "raises %s" % v.val.cls)
              continue
            d = deref(st, v)
            if not isinstance(d, dict):
              ctx.violation("view-shape", key, where(fn), "does not return a dictionary")
              continue
            h = strip(d)
            want = full(ov) if wd.v else only(ov)
            if h != want:
              ctx.violation("view-differs", key, where(fn), "options %s, expected %s" % (pr(h), pr(want)))
            order = [k for k in d if not str(k).startswith("_help_")]
            worder = [s[1] for s in layout[root.qual] if s[1] in want]
            if order != worder and view == "as_odict":
              ctx.violation("view-order", key, where(fn), "sections in order %s" % order)
    # text dump
    fn = UTIL + ".ConfigObject.dump"
    for wd in (TRUE, FALSE):
      for wh in (TRUE, FALSE):
        it, res = go(fn, {"ov": ov, "args": [OUT, C(0), wh, wd]})
        want = full(ov) if wd.v else only(ov)
        names = set()
        for k, v in want.items():
          names.add(k)
          if isinstance(v, dict):
            names |= set(v)
        alln = {"secta", "sectb", "omega", "psi"} | set(SECT["secta"]) | set(SECT["sectb"])
        for st, v in res:
          ctx.count("view_paths")
          text = [c.v for c in st.p.d["text"]]
          got = {n for n in alln if any(n == t or t.startswith(n + " =") or '"%s"' % n in t for t in text)}
          key = "%s [%s; with_defaults=%s with_help=%s]" % (fn, oname, wd.v, wh.v)
          if isinstance(v, Sig):
            ctx.violation("view-raises", key, where(fn), "raises %s" % v.val.cls)
          elif got != names:
            ctx.violation("dump-differs", key, where(fn), "options written %s, expected %s" % (
                sorted(got), sorted(names)))
          else:
            pieces = [render(x) for x in st.p.d["dump"]]
            if any(x is None for x in pieces):
              ctx.count("dumps_not_followed")
              continue
            ctx.count("dumps_read")
            bad = well_formed("".join(pieces), want)
            if bad:
              ctx.violation("dump-malformed", key, where(fn), bad)
    # clone
    fn = UTIL + ".ConfigObject.clone"
    it, res = go(fn, {"ov": ov})
    for st, v in res:
      ctx.count("view_paths")
      key = "%s [%s]" % (fn, oname)
      if isinstance(v, Sig) or not isinstance(v, Ref) or v == st.p.d["cfg"]:
        ctx.violation("clone-fails", key, where(fn), "does not return a new configuration")
        continue
      got = {}
      for s in (None, "secta", "sectb"):
        tgt = v
        if s:
          r = it.get_attr(st, v, s, m.function(fn).node)
          tgt = r[0][1]
        for n in SECT[s]:
          r = it.get_attr(st, tgt, n, m.function(fn).node)
          (got.setdefault(s, {}) if s else got)[n] = r[0][1]
        if s:
          orig = st.heap[st.p.d["cfg"]].attrs.get("_" + s)
          if tgt == orig:
            ctx.violation("clone-shares", key, where(fn), "the clone shares section %s with the original" % s)
      if got != full(ov):
        ctx.violation("clone-differs", key, where(fn), "options %s, expected %s" % (pr(got), pr(full(ov))))
    # has_override
    fn = UTIL + ".ConfigObject.has_override"
    it, res = go(fn, {"ov": ov})
    for st, v in res:
      ctx.count("view_paths")
      if v != C(bool(ov)):
        ctx.violation("override-wrong", "%s [%s]" % (fn, oname), where(fn), "reports %s" % show(v))
  # command line
  fn = UTIL + ".ConfigObject.add_to_argparser"
  p = P(conf, layout, [])
  def setup2(st):
    p.make_descriptors(st)
    return [ClsV(root), ARGP], {}
  it, res = run_entry(m, p, fn, setup2)
  for st, v in res:
    ctx.count("view_paths")
    flags = [c.v for c in st.p.d["flags"]]
    want = {"--" + n for s in SECT.values() for n in s}
    if isinstance(v, Sig) or set(flags) != want or len(flags) != len(set(flags)):
      ctx.violation("cli-differs", fn, where(fn), "flags %s, expected %s: %s" % (
          sorted(flags), sorted(want), " ; ".join(st.path(5))))
  fn = UTIL + ".ConfigObject.get_field_names"
  p = P(conf, layout, [])
  def setup3(st):
    p.make_descriptors(st)
    return [ClsV(root)], {}
  it, res = run_entry(m, p, fn, setup3)
  for st, v in res:
    ctx.count("view_paths")
    items = st.heap[v].items if isinstance(v, Ref) and isinstance(st.heap.get(v), Lst) else ()
    if [x.v for x in items if isinstance(x, C)] != [s[1] for s in layout[root.qual]]:
      ctx.violation("names-differ", fn, where(fn), "field names %s" % show(v))
  ctx.sample("declared options: %s" % ", ".join(".".join(pp + (f.name,)) for pp, f in conf.paths()[:12]))
  ctx.expect("config_classes", 7)
  ctx.expect("declared_options", 55)
  ctx.expect("view_paths", 50)
  ctx.expect("registration_paths", 2)


def strip(d):
  return {k: strip(v) if isinstance(v, dict) else v for k, v in d.items()
          if not str(k).startswith("_help_")}


def pr(d):
  return {k: pr(v) if isinstance(v, dict) else show(v) for k, v in sorted(d.items())}
