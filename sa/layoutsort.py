"""Sorting of arguments (C11)."""
import itertools

from . import layoutmodel as L
from .absint import C, U, Lst, Ref, Inst, Sig, NONE, TRUE, FALSE, Ext, Many, show
from .layoutcheck import Report, at
from .layoutmodel import Shape, arg, flag, line, bracket, parg, off


class SortPlugin(L.LPlugin):
  """Every order is possible where the keys are unknown."""

  def on_call(self, st, f, args, kwargs, node):
    if f in (Ext("id"), Ext("builtins.id")) and len(args) == 1:
      v = self.interp.resolve(st, args[0])
      if isinstance(v, Ref):
        return [(st, C("id of %r" % (v,)))]
    return L.LPlugin.on_call(self, st, f, args, kwargs, node)

  def on_sort(self, st, items, kwargs, node):
    if any(isinstance(x, Many) for x in items) or len(items) > 4:
      return None
    return [(st.copy(), list(p)) for p in itertools.permutations(items)]


def shapes():
  A, X, H = arg, lambda: arg(line()), line
  items = [
      (A, A), (A, A, A), (H, A, A), (A, H, A), (A, A, H), (X, A), (A, X), (A, H, H, A), (H, A, H, A, H),
      (bracket, A, bracket, A), (A, flag, A), (flag, A, A), (A, off, A), (X, H, X, H, A)]
  out = []
  for fs in items:
    for same in (False, True):
      for sortable in (True, False):
        out.append((fs, same, sortable))
  return out


def build(fs, same, sortable):
  kids = []
  for f in fs:
    k = f()
    if same and k.kind == "ARGUMENT":
      k.spell = U(("text", "the same"))
    kids.append(k)
  return Shape("PARGGROUP", *kids, sortable=TRUE if sortable else FALSE)


def chunks(kids):
  """[leading], [arg, what follows it], ..."""
  out = [[]]
  for k in kids:
    if k.kind == "ARGUMENT":
      out.append([])
    out[-1].append(k)
  return out


def check(model, spec):
  sh = build(*spec)
  rep = Report()
  b = L.Bench(model, sh)
  b.use(SortPlugin)
  b.distinct = lambda outs: outs
  kids = sh.kids()
  ids = [k.id for k in kids]
  byid = {k.id: k for k in kids}
  info = model.function(L.FMT + ".PargGroupNode.lock") if L.FMT + ".PargGroupNode.lock" in model.functions else \
      model.function(L.FMT + ".LayoutNode.lock")
  c, w = "formatter.PargGroupNode.lock", info.where
  orders = set()
  for st, root in b.build():
    rep.count("orders")
    if isinstance(root, Sig):
      rep.add("C11", "no error", c, w, "arranging %s fails: %s" % (sh, show(root.val)))
      continue
    got = [b.plugin.shape_of(st, b.interp.resolve(st, x)) for x in b.interp.expand(st, st.heap[root].attrs["_children"])]
    said = "%s%s becomes [%s]" % (sh, " with equal arguments" if spec[1] else "", ", ".join(
        str(byid[i]) if i in byid else "?" for i in got))
    if sorted(map(str, got)) != sorted(map(str, ids)):
      rep.add("C11", "permutation", c, w, said)
      continue
    if got == ids:
      continue
    orders.add(tuple(got))
    on = {n: any(v is True and isinstance(k, U) and k.key[0] == "attr" and k.key[2] == n for k, v in st.truth.items())
          for n in ("enable_sort", "autosort")}
    missing = [n for n in on if not on[n]]
    if missing:
      rep.add("C11", "enabled", c, w, "arguments are sorted without %s (%s)" % (" and ".join(missing), at(st)))
    if not spec[2]:
      rep.add("C11", "sortable", c, w, "arguments of a group which is not sortable are sorted")
    before = [tuple(k.id for k in x) for x in chunks(kids)]
    after = [tuple(k.id for k in x) for x in chunks([byid[i] for i in got])]
    if after[0] != before[0] or sorted(after[1:]) != sorted(before[1:]):
      rep.add("C11", "attached", c, w, "comments do not stay behind the argument they follow: %s" % said)
  rep.count("sorted orders", len(orders))
  return rep
