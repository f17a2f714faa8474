"""C24: taint from token text to the html writers.

The renderer is interpreted abstractly on a token and on a node with two
children; what it writes is kept as a symbolic concatenation.  A token must
come out as constant markup around its text, escaped exactly once; a node as
constant markup around its children, each rendered once and in order by a
renderer that is itself judged.  Then the page and annotate paths are followed
to see that this text reaches the output once and unchanged."""
import ast
import os
import re

from ..absint import (C, U, Ref, Inst, Dct, Tup, Sig, NONE, TRUE, FALSE, ClsV, Ext, ExcV, show, Bound, FnV, Lst, BM)
from ..cli import run_entry, mentions
from ..model import AnchorError, Klass, FunctionInfo
from ..textdom import TextPlugin, text, parts, flatten_fstr

RENDER = "cmakelang.render"
DUMP = RENDER + ".dump_html"
GETHTML = RENDER + ".get_html"
ANNOTATE = "cmakelang.annotate"
TREENODE = "cmakelang.parse.common.TreeNode"
TOKEN = "cmakelang.lex.Token"
ESCAPERS = {"xml.sax.saxutils.escape", "html.escape", "cgi.escape"}
SPELL = U(("token-text",))
KIDS = (U(("child", 0)), U(("child", 1)))
HTML = U(("html",))


class P(TextPlugin):
  def __init__(self, mods, renderer=None):
    TextPlugin.__init__(self, inline_mods=mods)
    self.renderer = renderer
    self.todo = set()

  def initial(self):
    p = TextPlugin.initial(self)
    p.d["out"] = ()
    return p

  def put(self, st, v):
    v = self.res(st, v)
    st.p.d["out"] = st.p.d["out"] + (v,)

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, Ext) and f.name in ESCAPERS and args:
      return [(st, U(("esc", self.res(st, args[0]))))]
    if isinstance(f, U) and f.key[0] == "attr" and f.key[1] == U(("outfile",)):
      if f.key[2] in ("write", "writelines"):
        for a in args:
          a = self.res(st, a)
          if f.key[2] == "writelines" and isinstance(a, (Tup, Ref)):
            for x in self.interp.expand(st, a):
              self.put(st, x)
          else:
            self.put(st, a)
        return [(st, NONE)]
    if isinstance(f, FnV) and f.info.mod.name == RENDER and f.info.qual != GETHTML:
      hit = [a for a in list(args) + list(kwargs.values()) if self.res(st, a) in KIDS]
      if hit and self.renderer:
        self.todo.add(f.info.qual)
        self.put(st, U(("rendered", self.res(st, hit[0]))))
        return [(st, NONE)]
    return TextPlugin.on_call(self, st, f, args, kwargs, node)


def escaped(v):
  """v is the token text with & < > escaped exactly once."""
  n = 0
  chain = []
  while isinstance(v, U) and v.key[0] in ("esc", "repl"):
    if v.key[0] == "esc":
      chain.append(None)
    else:
      chain.append((v.key[2].v, v.key[3].v))
    v = v.key[1]
  if v != SPELL:
    return None
  chain.reverse()
  if chain == [None]:
    return True
  if None in chain:
    return False
  for ch, want in (("&", ("&amp;", "&#38;")), ("<", ("&lt;", "&#60;")), (">", ("&gt;", "&#62;", ">")),
                   ("a", ("a",)), ("\n", ("\n",)), (" ", (" ",)), ('"', ('"', "&quot;", "&#34;")), ("$", ("$",))):
    s = ch
    for a, b in chain:
      s = s.replace(a, b)
    if s not in want:
      return False
  return bool(chain)


def tags_balanced(lits):
  """Constant markup opens and closes its tags in order."""
  stack = []
  for close, name in re.findall(r"<(/?)([A-Za-z][\w-]*)[^<>]*>", "".join(lits)):
    if close:
      if not stack or stack.pop() != name:
        return False
    else:
      stack.append(name)
  return not stack


def judge(ctx, qual, kind, out, where):
  ps = []
  for v in out:
    if isinstance(v, U) and v.key[0] == "fstr":
      v = flatten_fstr(v)
    ps.extend(parts(v))
  seq = []
  lits = []
  cls = []
  for p in ps:
    if isinstance(p, C):
      lits.append(str(p.v))
      continue
    if isinstance(p, U) and p.key[0] == "rendered":
      seq.append(p.key[1])
      continue
    e = escaped(p)
    if e is True:
      seq.append(SPELL)
    elif mentions(p, lambda x: x == SPELL):
      ctx.violation("raw-text", "%s [%s]" % (qual, kind), where,
                    "token text is written %s" % ("with its escapes wrong or doubled" if e is False
                                                  else "as %s, not escaped" % show(p)))
      seq.append(SPELL)
    elif isinstance(p, U) and p.key[0] == "attr" and p.key[2] == "name":
      lits.append("name")
    elif mentions(p, lambda x: isinstance(x, U) and x.key[0] in ("nodeattr", "child")):
      ctx.violation("raw-text", "%s [%s other]" % (qual, kind), where,
                    "something of the listfile other than escaped text is written: %s" % show(p))
  want = [SPELL] if kind == "token" else list(KIDS)
  if seq != want:
    ctx.violation("not-once-in-order", "%s [%s]" % (qual, kind), where,
                  "%s is rendered as %s instead of once, in order"
                  % ("a token's text" if kind == "token" else "a node with two children",
                     [show(x) for x in seq]))
  if not tags_balanced(lits):
    ctx.violation("unbalanced", "%s [%s]" % (qual, kind), where, "the markup written opens and closes differently: %s"
                  % "".join(lits))


def renderer(ctx, model):
  todo, done = {DUMP}, set()
  while todo:
    q = todo.pop()
    if q in done:
      continue
    done.add(q)
    info = model.function(q)
    for kind in ("token", "node"):
      p = P([RENDER], q)

      def setup(st, p=p, kind=kind):
        if kind == "token":
          n = p.interp.alloc(st, ("node",), Inst(model.klass(TOKEN), {
              "spelling": SPELL, "type": U(("nodeattr", "type"))}))
        else:
          ch = p.interp.alloc(st, ("kids",), Lst(KIDS))
          n = p.interp.alloc(st, ("node",), Inst(model.klass(TREENODE), {
              "children": ch, "node_type": U(("nodeattr", "type"))}))
        vals = []
        for i, x in enumerate(info.params):
          vals.append(n if i == 0 else U(("outfile",)))
        return vals, {}
      it, res = run_entry(model, p, q, setup)
      for st, v in res:
        ctx.count("renderer_paths")
        if isinstance(v, Sig):
          ctx.violation("renderer-raises", "%s [%s]" % (q, kind), info.where, "raises %s" % show(v.val))
          continue
        judge(ctx, q, kind, st.p.d["out"], info.where)
      todo |= p.todo


class PagePlugin(TextPlugin):
  """get_html and annotate_file: the rendered text is one opaque value."""

  def initial(self):
    p = TextPlugin.initial(self)
    p.d["out"] = ()
    return p

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, Ext) and f.name in ESCAPERS and args:
      return [(st, U(("esc", self.res(st, args[0]))))]
    if isinstance(f, Ext) and f.name in ("io.StringIO", "StringIO.StringIO"):
      return [(st, self.interp.alloc(st, self.interp.site(st, node, "sio"), Inst("Buf", {"$t": C("")})))]
    if isinstance(f, FnV) and f.info.qual == DUMP:
      dst = self.res(st, args[1] if len(args) > 1 else kwargs.get("outfile", NONE))
      self.write(st, dst, HTML)
      return [(st, NONE)]
    if isinstance(f, U) and f.key[0] == "attr":
      if f.key[2] == "render":
        vals = list(args) + list(kwargs.values())
        flat = []
        for v in vals:
          v = self.res(st, v)
          o = st.heap.get(v) if isinstance(v, Ref) else None
          flat.extend([self.res(st, x) for x in o.items.values()] if isinstance(o, Dct) else [v])
        names = dict((k, self.res(st, v)) for k, v in kwargs.items())
        for v in vals:
          v = self.res(st, v)
          o = st.heap.get(v) if isinstance(v, Ref) else None
          if isinstance(o, Dct):
            names.update((k.v, self.res(st, x)) for k, x in o.items.items() if isinstance(k, C))
        self.rendered.append((names, f.key[1], self.interp.where(st, node)))
        return [(st, U(("page",)))]
      if f.key[1] == U(("outfile",)) and f.key[2] in ("write", "writelines"):
        for a in args:
          self.write(st, f.key[1], self.res(st, a))
        return [(st, NONE)]
    return TextPlugin.on_call(self, st, f, args, kwargs, node)

  def write(self, st, dst, v):
    o = st.heap.get(dst) if isinstance(dst, Ref) else None
    if isinstance(o, Inst) and o.klass == "Buf":
      st.heap[dst] = Inst("Buf", {"$t": text([o.attrs["$t"], v])})
    else:
      st.p.d["out"] = st.p.d["out"] + (v,)

  def on_attr(self, st, base, name, node):
    o = st.heap.get(base) if isinstance(base, Ref) else None
    if isinstance(o, Inst) and o.klass == "Buf":
      return [(st, BM(base, name))]
    return TextPlugin.on_attr(self, st, base, name, node)

  def on_method(self, st, base, name, args, kwargs, node):
    o = st.heap.get(base) if isinstance(base, Ref) else None
    if isinstance(o, Inst) and o.klass == "Buf":
      if name == "getvalue":
        t = o.attrs["$t"]
        ps = parts(t)
        return [(st, ps[0] if len(ps) == 1 else t)]
      if name == "write":
        self.write(st, base, self.res(st, args[0]))
      return [(st, NONE)]
    return TextPlugin.on_method(self, st, base, name, args, kwargs, node)


def pages(ctx, model):
  info = model.function(GETHTML)
  for full in (FALSE, TRUE):
    p = PagePlugin(inline_mods=[RENDER])
    p.rendered = []

    def setup(st, p=p, full=full):
      return [U(("tree",)), full][:len(info.params)], {}
    it, res = run_entry(model, p, GETHTML, setup)
    label = "full page" if full == TRUE else "stub"
    for st, v in res:
      ctx.count("page_paths")
      if isinstance(v, Sig) or v == NONE:
        continue
      v = p.res(st, v)
      if full == FALSE and v != HTML:
        ctx.violation("altered", "%s [%s]" % (GETHTML, label), info.where,
                      "returns %s instead of the rendered text as it is" % show(v))
    if full == TRUE:
      if not p.rendered:
        ctx.undecide("%s: no template is rendered" % GETHTML)
      for names, tpl, where in p.rendered:
        ctx.count("templates")
        hit = [k for k, x in names.items() if x == HTML]
        if len(hit) != 1:
          ctx.violation("altered", "%s [template]" % GETHTML, where,
                        "the template is not given the rendered text as it is: %s" % {k: show(x) for k, x in names.items()})
          continue
        template(ctx, model, hit[0], where)


def template(ctx, model, name, where):
  """The template files which use the variable, with autoescaping as the
  environment sets it up."""
  mod = model.module(RENDER)
  tpls = set()
  auto = None
  for n in ast.walk(mod.tree):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get_template" and n.args \
        and isinstance(n.args[0], ast.Constant):
      tpls.add(n.args[0].value)
    if isinstance(n, ast.Call) and (getattr(n.func, "attr", "") or getattr(n.func, "id", "")) == "Environment":
      auto = False
      for k in n.keywords:
        if k.arg == "autoescape":
          auto = k.value
  for t in sorted(tpls):
    path = os.path.join(model.repo, "cmakelang", "templates", t)
    if not os.path.exists(path):
      ctx.violation("no-template", t, where, "the template does not exist")
      continue
    with open(path, encoding="utf-8") as f:
      src = f.read()
    uses = re.findall(r"\{\{-?\s*%s\s*((?:\|[^}]*)?)-?\}\}" % re.escape(name), src)
    if len(uses) != 1:
      ctx.violation("altered", "%s uses" % t, where, "the template uses the rendered text %d times" % len(uses))
    on = False
    if isinstance(auto, ast.Constant):
      on = bool(auto.value)
    elif isinstance(auto, ast.Call):
      exts = [x.value for a in auto.args[:1] for x in ast.walk(a) if isinstance(x, ast.Constant)] or ["html", "htm", "xml"]
      on = any(t.lower().endswith("." + e.lstrip(".")) for e in exts)
      for k in auto.keywords:
        if k.arg in ("default", "default_for_string") and k.arg == "default" and isinstance(k.value, ast.Constant) \
            and k.value.value and not on:
          on = True
    if on and not any("safe" in u for u in uses):
      ctx.violation("escaped-twice", t, where, "the environment escapes the already escaped text again")
    if any("|" in u and "safe" not in u for u in uses):
      ctx.violation("altered", "%s filter" % t, where, "the template filters the rendered text")


def annotate(ctx, model):
  q = ANNOTATE + ".annotate_file"
  info = model.function(q)
  fmts = set()
  for n in ast.walk(info.node):
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and isinstance(getattr(n, "_parent", None), ast.Compare):
      fmts.add(n.value)
  fmts &= {"page", "stub", "iframe"} | fmts
  for fmt in sorted(fmts):
    p = PagePlugin(inline_mods=[ANNOTATE])
    p.rendered = []
    p.handlers[GETHTML] = lambda st, a, k, n: [(st, HTML)]
    if not any(isinstance(n, ast.Call) for n in ast.walk(info.node)):
      continue

    def setup(st, p=p, fmt=fmt):
      return [{"outfile": U(("outfile",)), "outfmt": C(fmt)}.get(x, U(("param", x))) for x in info.params], {}
    it, res = run_entry(model, p, q, setup)
    for st, v in res:
      ctx.count("annotate_paths")
      if isinstance(v, Sig):
        continue
      out = []
      for x in st.p.d["out"]:
        out.extend(parts(x))
      n = sum(1 for x in out if x == HTML)
      other = [x for x in out if x != HTML and mentions(x, lambda y: y == HTML)]
      if other:
        ctx.violation("altered", "%s [%s]" % (q, fmt), info.where, "the rendered text is changed before it is written: %s" % show(other[0]))
      elif n != 1 and out:
        ctx.violation("not-once-in-order", "%s [%s]" % (q, fmt), info.where, "the rendered text is written %d times" % n)
      raw = [x for x in out if mentions(x, lambda y: isinstance(y, U) and y.key[0] in ("param",)) and x != HTML]
      if raw:
        ctx.violation("raw-text", "%s [%s]" % (q, fmt), info.where, "text which was not rendered is written: %s" % show(raw[0]))


def run(ctx):
  m = ctx.model
  ctx.rule("a token is written as constant markup around its text, escaped exactly once; a node as constant markup "
           "around each child once, in order; tags balance")
  ctx.rule("the rendered text reaches stub, page and iframe output once and unchanged")
  renderer(ctx, m)
  pages(ctx, m)
  annotate(ctx, m)
  ctx.expect("renderer_paths", 2)
  ctx.expect("page_paths", 2)
  ctx.expect("templates", 1)
  ctx.expect("annotate_paths", 3)
