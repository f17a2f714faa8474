"""Drive methods of the repository's classes in sequence inside the abstract
interpreter: build objects with their own constructors, call their methods and
look at the resulting states."""
from .absint import (C, E, Tup, NTup, Ref, FnV, U, Sig, Inst, Lst, NONE, Interp, State, ModV,
                     AnalysisError)
from .model import AnchorError, FunctionInfo


class Session:

  def __init__(self, model, plugin, modname, max_steps=30000000):
    self.model = model
    self.it = Interp(model, plugin)
    self.it.max_steps = max_steps
    mod = model.module(modname)
    st = State()
    st.p = plugin.initial()
    root = self.it.new_frame(st)
    st.frames[root] = {"$mod": ModV(mod)}
    st.cur = root
    self.node = mod.tree.body[0]
    self.n = 0
    self.states = [st]       # live states; names live in st.p.d["$env"]

  def klass(self, qual):
    k = self.model.classes.get(qual)
    if k is None:
      raise AnchorError("class %s not found" % qual)
    return k

  def alloc(self, st, obj, tag="obj"):
    self.n += 1
    return self.it.alloc(st, ("$s", tag, self.n), obj)

  def lst(self, st, items):
    return self.alloc(st, Lst(tuple(items)), "list")

  def new(self, st, qual, *args, **attrs):
    """Instantiate a class on a state with one outcome; attrs override."""
    res = self.it.instantiate(st, self.klass(qual), list(args), {}, self.node)
    res = [(s, v) for s, v in res if not isinstance(v, Sig)]
    if len(res) != 1 or res[0][0] is not st:
      raise AnalysisError("constructor of %s has %d outcomes" % (qual, len(res)))
    ref = res[0][1]
    # give every object its own identity
    o = st.heap[ref]
    self.n += 1
    a = dict(o.attrs)
    a.update(attrs)
    for k, v in list(a.items()):
      if isinstance(v, Ref) and isinstance(st.heap.get(v), Lst) and k not in attrs:
        a[k] = self.alloc(st, st.heap[v], "list")
    return self.alloc(st, Inst(o.klass, a), o.klass.name)

  def call(self, st, recv, name, *args, **kwargs):
    """-> [(state, value|Sig)]"""
    out = []
    for s, f in self.it.get_attr(st, recv, name, self.node):
      if isinstance(f, Sig):
        out.append((s, f))
      else:
        out.extend(self.it.call(s, f, list(args), dict(kwargs), self.node))
    return out

  def fn(self, st, qual, *args, **kwargs):
    info = self.model.function(qual)
    return self.it.call_fn(st, FnV(info, None), list(args), dict(kwargs), self.node)
