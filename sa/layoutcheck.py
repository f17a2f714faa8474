"""Obligations of the formatter's layout nodes (C07, C08, C09)."""
import itertools
import multiprocessing
import os

from . import layoutmodel as L
from .absint import C, U, Ref, Inst, Tup, Lst, Sig, NONE, show, FnV
from .layoutmodel import (Shape, line, gapped, bracket, off, on, arg, flag, lp, rp, parg, group, kw, paren, stmt,
                          atstmt, body, ws)
from .lexmodel import linear
from .model import AnchorError

# the parse trees the parser builds: node kind -> what its children may be
def parg_items():
  return [("arg", arg), ("arg#", lambda: arg(line())), ("arg#[[]]", lambda: arg(bracket())),
          ("flag", flag), ("flag#", lambda: flag(line())), ("#", line), ("#gap", gapped), ("#[[]]", bracket),
          ("off", off), ("on", on), ("()", lambda: paren(group())), ("(arg)", lambda: paren(group(parg(arg())))),
          ("()#", lambda: paren(group(), line())), ("()#[[]]", lambda: paren(group(), bracket()))]


def group_items():
  return [("parg", lambda: parg(arg())), ("parg#", lambda: parg(arg(line()))), ("parg()", parg),
          ("parg;#", lambda: parg(arg(), line())), ("pargoff", lambda: parg(arg(), off())),
          ("parg()#", lambda: parg(paren(group(), line()))),
          ("kw", kw), ("kwparg", lambda: kw(parg(arg()))), ("kwparg#", lambda: kw(parg(arg(line())))),
          ("kwgroup", lambda: kw(group(parg(arg()), kw()))), ("kw#", lambda: kw(group(line()))),
          ("kw()", lambda: kw(parg())), ("kw(())", lambda: kw(group())),
          ("#", line), ("#gap", gapped), ("#[[]]", bracket), ("off", off), ("on", on),
          ("()", lambda: paren(group())), ("()#", lambda: paren(group(parg(arg())), line()))]


def inner_groups():
  one = [[f] for _, f in group_items()]
  few = [("#", line), ("#gap", gapped), ("#[[]]", bracket), ("parg()", parg), ("parg", lambda: parg(arg())),
         ("parg#", lambda: parg(arg(line()))), ("off", off)]
  two = [[f, g] for (_, f), (_, g) in itertools.product(few, repeat=2)]
  return [[]] + one + two


def shapes(tier):
  out = []
  items = [f for _, f in parg_items()]
  for klass in ("PARGGROUP", "FLAGGROUP"):
    out.append(lambda k=klass: Shape("PARGGROUP", klass=L.KLASS[k]))
    for f in items:
      out.append(lambda f=f, k=klass: Shape("PARGGROUP", f(), klass=L.KLASS[k]))
  for f, g in itertools.product(items, repeat=2):
    out.append(lambda f=f, g=g: parg(f(), g()))
  few = [arg, lambda: arg(line()), line, bracket] + ([off, flag, gapped] if tier != "quick" else [])
  for fs in itertools.product(few, repeat=3):
    out.append(lambda fs=fs: parg(*[f() for f in fs]))
  items = [f for _, f in group_items()]
  out.append(group)
  for f in items:
    out.append(lambda f=f: group(f()))
  for f, g in itertools.product(items, repeat=2):
    out.append(lambda f=f, g=g: group(f(), g()))
  few = [lambda: parg(arg()), parg, line] + ([bracket, lambda: kw(parg(arg())), off] if tier != "quick" else [])
  for fs in itertools.product(few, repeat=3):
    out.append(lambda fs=fs: group(*[f() for f in fs]))
  out.append(kw)
  for f in inner_groups():
    out.append(lambda f=f: kw(group(*[g() for g in f])))
  for _, f in parg_items():
    out.append(lambda f=f: kw(parg(f())))
  out.append(lambda: kw(parg()))
  for f in inner_groups():
    for c in ([], [line], [bracket]):
      out.append(lambda f=f, c=c: paren(group(*[g() for g in f]), *[x() for x in c]))
      if len(f) < 2 or tier != "quick" or not c:
        out.append(lambda f=f, c=c: stmt(group(*[g() for g in f]), *[x() for x in c]))
  for c in ([], [line], [bracket]):
    out.append(lambda c=c: atstmt(*[x() for x in c]))
  inb = [lambda: stmt(group()), lambda: stmt(group(), line()), ws, line, bracket, off, on, atstmt,
         lambda: atstmt(line()), lambda: flow()]
  out.append(body)
  for n in (1, 2):
    for fs in itertools.product(inb, repeat=n):
      out.append(lambda fs=fs: body(*[f() for f in fs]))
  bodies = [body, lambda: body(ws()), lambda: body(line()), lambda: body(stmt(group())), lambda: body(off())]
  for b in bodies:
    out.append(lambda b=b: flow(b()))
    for b2 in bodies:
      out.append(lambda b=b, b2=b2: flow(b(), b2()))
  return out


def flow(*bodies):
  bodies = bodies or (body(),)
  out = [stmt(group())]
  for b in bodies:
    out += [b, stmt(group())]
  return Shape("FLOW_CONTROL", *out)


def leaves():
  out = []
  for kind in ("ARGUMENT", "FLAG", "KEYWORD", "FUNNAME", "ATWORD"):
    tok = "ATWORD" if kind == "ATWORD" else "WORD"
    out.append(lambda k=kind, t=tok: Shape(k, t))
  for f in (line, bracket):
    out.append(lambda f=f: arg(f()))
    out.append(lambda f=f: flag(f()))
  for t in ("QUOTED_LITERAL", "BRACKET_ARGUMENT", "UNQUOTED_LITERAL", "NUMBER", "DEREF", "ATWORD", "BYTEORDER_MARK"):
    out.append(lambda t=t: Shape("ARGUMENT", t))
  out += [lp, rp, line, gapped, bracket, ws,
          lambda: Shape("COMMENT", "COMMENT", klass=L.COMMON + ".TreeNode"),
          lambda: Shape("COMMENT", "COMMENT", "NEWLINE", "WHITESPACE", "COMMENT"),
          lambda: Shape("COMMENT", "BRACKET_COMMENT", klass=L.COMMON + ".TreeNode")]
  return out


# -- linear order
def diff(a, b):
  fa, fb = linear(a), linear(b)
  if fa is None or fb is None:
    return None
  d = dict(fa)
  for k, c in fb.items():
    d[k] = d.get(k, 0) - c
  return {k: c for k, c in d.items() if c}


def atleast(a, b, k):
  """a >= b + k for all values of the unknowns (rows a child takes are >= 0)"""
  d = diff(a, b)
  if d is None:
    return False
  const = d.pop(1, 0)
  for atom, c in list(d.items()):
    if isinstance(atom, U) and atom.key[0] == "max" and c == 1:
      rest = dict(d)
      del rest[atom]
      base = C(const)
      for x, n in rest.items():
        for _ in range(abs(n)):
          base = U(("bin", "Add" if n > 0 else "Sub", base, x))
      return any(atleast(U(("bin", "Add", x, base)), C(0), k) for x in atom.key[1:])
    if not (isinstance(atom, U) and atom.key[0] in ("rows", "len") and c > 0):
      return False
  return const >= k


def same(a, b):
  return diff(a, b) == {}


def pos(v):
  return "(%s, %s)" % (show(v[0]), show(v[1]))


class Report:
  def __init__(self):
    self.bad = []
    self.n = {}

  def add(self, prop, rule, construct, where, msg):
    if not any(b[:3] == (prop, rule, construct) for b in self.bad):
      self.bad.append((prop, rule, construct, where, msg))

  def count(self, name, n=1):
    self.n[name] = self.n.get(name, 0) + n


def klass_of(b, st, root):
  return st.heap[root].klass


def method_where(model, klass, name):
  owner, fn = klass.lookup(name)
  return ("%s.%s" % (owner.qual.replace("cmakelang.format.", ""), name), fn.where) if fn else (klass.qual, "")


def at(st):
  p = st.path(6)
  return "; ".join(str(x) for x in p[-3:])


def container(model, make):
  """Reflow and write of one container node over given children."""
  sh = make()
  rep = Report()
  b = L.Bench(model, sh)
  for st, root in b.build():
    if isinstance(root, Sig):
      raised(rep, b, st, root, "formatter.create_box_tree", "", sh, "building")
      continue
    k = klass_of(b, st, root)
    rc, rw = method_where(model, k, "_reflow")
    wc, ww = method_where(model, k, "write")
    kids = sh.written_kids()
    tried = set()
    for s2, v in b.reflow(st, root):
      rep.count("layouts")
      if isinstance(v, Sig):
        raised(rep, b, s2, v, rc, rw, sh, "laying out")
        continue
      places = positions(b, s2, root, rep, rc, rw, sh)
      if places is None:
        continue
      order(rep, b, s2, v, kids, places, rc, rw, sh)
      key = frozenset((n, x) for n, x in s2.heap[root].attrs.items() if n not in PLACE)
      if key in tried:
        continue
      tried.add(key)
      for active in (True, False):
        s3 = s2.copy()
        for s4, w in b.write(s3, root, None if active else b.offtoken(s3)):
          rep.count("writes")
          if isinstance(w, Sig):
            raised(rep, b, s4, w, wc, ww, sh, "writing")
            continue
          written(rep, s4, kids, sh, wc, ww, active)
  return rep


def raised(rep, b, st, sig, construct, where, sh, doing):
  v = sig.val
  what = show(v) if v is not None else sig.kind if hasattr(sig, "kind") else str(sig)
  rep.add("C07", "no error", construct, where, "%s %s fails: %s (%s)" % (doing, sh, what[:200], at(st)))


def positions(b, st, root, rep, rc, rw, sh):
  """{shape id: (pos, end)} of the direct children."""
  out = {}
  it = b.interp
  kids = it.expand(st, st.heap[root].attrs["_children"])
  for c in kids:
    c = it.resolve(st, c)
    sid = b.plugin.shape_of(st, c)
    o = st.heap[c]
    if "$pos" in o.attrs:
      out[sid] = (o.attrs["$pos"].items, o.attrs["$end"].items)
  return out


PLACE = ("_position", "_colextent", "_rowextent", "_reflow_valid", "_wrap", "_passno", "_size",
         "statement_terminal")


def order(rep, b, st, v, kids, places, rc, rw, sh):
  prev = None       # the child before, and the last one of which anything is written
  ink = None
  for c in kids:
    empty = not c.leaves()
    if c.id not in places:
      if empty:
        continue
      rep.add("C07", "placed", rc, rw, "%s of %s is never placed (%s)" % (c, sh, at(st)))
      return
    p, e = places[c.id]
    rep.count("neighbours")
    if prev is None:
      if not (atleast(p[0], b.X0, 1) or same(p[0], b.X0) and (same(p[1], b.Y0) or atleast(p[1], b.Y0, 0))):
        rep.add("C08", "order", rc, rw, "%s of %s is placed at %s, which may be before %s (%s)" % (
            c, sh, pos(p), pos((b.X0, b.Y0)), at(st)))
    else:
      for pc, pe in [prev] + ([ink] if ink is not None and ink is not prev else []):
        adjacent(rep, st, sh, pc, pe, c, p, empty, rc, rw)
    prev = (c, e)
    if not empty:
      ink = prev
  rv = b.plugin.xy(st, v)
  end = prev[1] if prev else (b.X0, b.Y0)
  if rv is None or not (atleast(rv[0], end[0], 1) or same(rv[0], end[0]) and (same(rv[1], end[1]) or atleast(rv[1], end[1], 0))):
    rep.add("C08", "end", rc, rw, "the layout of %s is said to end at %s, but the last of it ends at %s (%s)" % (
        sh, pos(rv) if rv else show(v), pos(end), at(st)))


def adjacent(rep, st, sh, pc, pe, c, p, empty, rc, rw):
  down = atleast(p[0], pe[0], 1)
  if pc.ends_in_line_comment() and not down:
    rep.add("C09", "row after a line comment", rc, rw,
            "in %s, %s follows the line comment at the end of %s on the same line: at %s, where the comment ends at %s (%s)" % (
                sh, c, pc, pos(p), pos(pe), at(st)))
  if sh.kind in ("BODY", "FLOW_CONTROL"):
    if not down:
      rep.add("C08", "statements", rc, rw, "in %s, %s is not put on a later line than %s: at %s, where that ends at %s (%s)" % (
          sh, c, pc, pos(p), pos(pe), at(st)))
  elif not down:
    last = pc.leaves()[-1].kind if pc.leaves() else None
    first = None if empty else c.leaves()[0].kind
    gap = 0 if empty or last in ("LPAREN", "RPAREN", None) or first == "RPAREN" or \
        (last == "FUNNAME" and first == "LPAREN") else 1
    if not (same(p[0], pe[0]) and atleast(p[1], pe[1], gap)):
      rep.add("C08", "separated" if gap else "order", rc, rw,
              "in %s, %s is placed at %s, where %s ends at %s: %s (%s)" % (
                  sh, c, pos(p), pc, pos(pe), "the two may run into each other" if gap else "which may be before it", at(st)))


def written(rep, st, kids, sh, wc, ww, active):
  kids = [c for c in kids if c.leaves()]
  want = [c.id for c in kids]
  byid = {c.id: c for c in kids}
  got = []
  for w in st.p.d["w"]:
    if w[0] == "child":
      if w[1] in byid:
        got.append(w[1])
    elif active or w[0] != "text":
      rep.add("C07", "own text", wc, ww, "writing %s puts out %s of its own" % (sh, w[0]))
    else:
      rep.add("C10", "silent", wc, ww, "writing %s puts out text while formatting is off" % sh)
  if not active:
    # what holds no pragma may be skipped, and nothing is written in it
    keep = {c.id for c in kids if any(x.kind == "ONOFFSWITCH" for x in c.leaves())}
    got = [i for i in got if i in keep]
    want = [i for i in want if i in keep]
  if got != want:
    lost = [str(byid[i]) for i in want if i not in got]
    twice = [str(byid[i]) for i in set(got) if got.count(i) > 1]
    how = "loses %s" % lost if lost else "repeats %s" % twice if twice else "changes the order of the children"
    prop = "C07" if active else "C10"
    rep.add(prop, "children" if active else "descent", wc, ww, "writing %s%s %s (%s)" % (
        sh, "" if active else " while formatting is off", how, at(st)))


_MODEL = None


def jobs(tier, parts):
  from . import layoutleaf, layoutsort
  out = []
  if "containers" in parts:
    out += [("container", i, tier) for i in range(len(shapes(tier)))]
  if "leaves" in parts:
    out += [("leaf", i, n) for i in range(len(leaves())) for n in (1, 2, 3)]
    out += [("contract", i, None) for i in range(len(contracts()))]
    out += [("outfile", None, None)]
  if "comments" in parts:
    out += [("comments", None, None)]
  if "regions" in parts:
    out += [("region", i, None) for i in range(len(layoutleaf.region_shapes()))] + [("text", None, None)]
  if "sort" in parts:
    out += [("sort", i, None) for i in range(len(layoutsort.shapes()))]
  return out


def contracts():
  return [arg, off, lp, line, bracket, parg, group, kw, lambda: paren(group()), lambda: stmt(group()), atstmt, body,
          flow, ws]


def _work(job):
  from . import layoutleaf, layoutsort
  kind, i, x = job
  try:
    if kind == "container":
      rep = container(_MODEL, shapes(x)[i])
    elif kind == "leaf":
      rep = layoutleaf.leaf(_MODEL, leaves()[i], x)
    elif kind == "contract":
      rep = layoutleaf.contract(_MODEL, contracts()[i])
    elif kind == "outfile":
      rep = layoutleaf.outfile(_MODEL)
    elif kind == "comments":
      rep = layoutleaf.comments(_MODEL)
    elif kind == "region":
      rep = layoutleaf.regions(_MODEL, layoutleaf.region_shapes()[i])
    elif kind == "text":
      rep = layoutleaf.same_text(_MODEL)
    elif kind == "sort":
      rep = layoutsort.check(_MODEL, layoutsort.shapes()[i])
    return (rep.bad, rep.n, None)
  except AnchorError as e:
    return ([], {}, "%s: %s" % (kind, e))


def analyse(ctx, prop, parts):
  """Do the obligations of one property over the given parts of the formatter."""
  global _MODEL
  _MODEL = ctx.model
  todo = jobs(ctx.tier, parts)
  seen = set()
  with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
    for job, (bad, n, err) in zip(todo, pool.imap(_work, todo, 4)):
      if err:
        raise AnchorError(err)
      ctx.count({"container": "trees", "leaf": "leaves"}.get(job[0], job[0] + " cases"), 1)
      for k, v in n.items():
        ctx.count(k, v)
      for p, rule, construct, where, msg in bad:
        if p == prop and (rule, construct) not in seen:
          seen.add((rule, construct))
          ctx.violation(rule, construct, where, msg)
  for i in range(0, len(todo), max(1, len(todo) // 12)):
    k, j, x = todo[i]
    if k == "container":
      ctx.sample("layout of %s" % shapes(x)[j]())
    elif k == "leaf":
      ctx.sample("%s of %d line(s)" % (leaves()[j](), x))
