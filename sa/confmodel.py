"""Static model of the configuration classes, and an interpreter plugin that
gives their descriptors the semantics written in config_util."""
import ast

from .absint import (C, E, Tup, Ref, FnV, Bound, ClsV, Ext, U, BM, Many, ExcV, NONE,
                     TRUE, FALSE, Sig, Inst, Lst, Dct, Plugin, PState, State, Interp)
from .model import Klass, FunctionInfo, AnchorError
from .cli import FilePlugin

UTIL = "cmakelang.config_util"
CONF = "cmakelang.configuration"


class Field:
  def __init__(self, klass, name, call, order):
    self.klass, self.name, self.call, self.order = klass, name, call, order
    self.default = None
    self.choices = None
    self.help = None


class ConfModel:
  """Options and sections as the class bodies declare them."""

  def __init__(self, model):
    self.model = model
    base = model.klass(UTIL + ".ConfigObject")
    self.field = model.klass(UTIL + ".FieldDescriptor")
    self.subtree = model.klass(UTIL + ".SubtreeDescriptor")
    self.classes = {}
    for k in model.classes.values():
      if k is base or not k.issub(base):
        continue
      self.classes[k.qual] = k
    self.fields = {}      # class qual -> [Field]
    self.subtrees = {}    # class qual -> [(name, Klass, call)]
    self.registry = {}    # class qual -> has own registry
    for q, k in self.classes.items():
      self.fields[q], self.subtrees[q] = [], []
      self.registry[q] = False
      for i, st in enumerate(k.node.body):
        if not isinstance(st, ast.Assign) or len(st.targets) != 1 or \
            not isinstance(st.targets[0], ast.Name):
          continue
        name = st.targets[0].id
        if name == "_field_registry":
          self.registry[q] = isinstance(st.value, (ast.List, ast.Call))
        if not isinstance(st.value, ast.Call):
          continue
        ent = model.resolve_expr(k.mod, st.value.func)
        if not isinstance(ent, Klass):
          continue
        if ent.issub(self.field):
          f = Field(k, name, st.value, i)
          names = ["default_value", "helptext", "choices"]
          init = ent.lookup("__init__")[1]
          if isinstance(init, FunctionInfo):
            names = init.params[1:]
          vals = dict(zip(names, st.value.args))
          for kw in st.value.keywords:
            vals[kw.arg] = kw.value
          f.default = vals.get("default_value")
          f.choices = vals.get("choices")
          f.help = vals.get("helptext")
          self.fields[q].append(f)
        elif ent.issub(self.subtree):
          args = list(st.value.args) + [kw.value for kw in st.value.keywords]
          sub = model.resolve_expr(k.mod, args[0]) if args else None
          self.subtrees[q].append((name, sub, st.value))

  def all_fields(self):
    return [f for q in sorted(self.fields) for f in self.fields[q]]

  def root(self):
    return self.model.klass(CONF + ".Configuration")

  def sections(self):
    return self.subtrees[self.root().qual]

  def paths(self):
    """(section, Field) for every option reachable from the root."""
    out = []
    def walk(q, prefix, seen):
      for f in self.fields.get(q, []):
        out.append((prefix, f))
      for name, sub, _ in self.subtrees.get(q, []):
        if isinstance(sub, Klass) and sub.qual not in seen:
          walk(sub.qual, prefix + (name,), seen | {sub.qual})
    walk(self.root().qual, (), {self.root().qual})
    return out


class ConfPlugin(FilePlugin):
  """Interprets the configuration classes with a chosen set of descriptors.

  `layout` maps a class qualname to a list of descriptor specs:
  ("field", name, default Val) or ("sub", name, Klass)."""

  def __init__(self, conf, layout, inline_mods, opaque=()):
    FilePlugin.__init__(self, inline_mods=tuple(inline_mods) + (UTIL, CONF), opaque=opaque)
    self.conf = conf
    self.layout = layout

  def make_descriptors(self, st):
    """Allocate the descriptor objects; returns nothing, fills p.d."""
    for q in sorted(self.layout):
      refs = []
      for spec in self.layout[q]:
        if spec[0] == "field":
          _, name, default = spec[:3]
          choices = spec[3] if len(spec) > 3 else NONE
          r = self.interp.alloc(st, ("descr", q, name), Inst(self.conf.field, {
              "name": C(name), "default_value": default, "helptext": U(("help", name)),
              "choices": choices}))
        else:
          _, name, klass = spec
          r = self.interp.alloc(st, ("descr", q, name), Inst(self.conf.subtree, {
              "name": C(name), "subtree_class": ClsV(klass)}))
        refs.append(r)
      st.p.d["reg:" + q] = Tup(tuple(refs))

  def registry_for(self, st, klass):
    for k in klass.mro():
      if isinstance(k, Klass) and ("reg:" + k.qual) in st.p.d:
        return st.p.d["reg:" + k.qual]
    return Tup(())

  def is_conf(self, klass):
    return isinstance(klass, Klass) and klass.qual in self.conf.classes

  def on_attr(self, st, base, name, node):
    klass = None
    if isinstance(base, Ref):
      o = st.heap.get(base)
      if isinstance(o, Inst) and self.is_conf(o.klass):
        klass = o.klass
    elif isinstance(base, ClsV) and self.is_conf(base.klass):
      klass = base.klass
    if klass is not None:
      reg = self.registry_for(st, klass)
      if name == "_field_registry":
        return [(st, reg)]
      if name == "__class__" and isinstance(base, Ref):
        return [(st, ClsV(klass))]
      if name in ("__name__", "__doc__"):
        return [(st, U(("doc", klass.qual, name)))]
      for r in reg.items:
        d = st.heap.get(r)
        if isinstance(d, Inst) and d.attrs.get("name") == C(name):
          _, g = d.klass.lookup("__get__")
          if isinstance(g, FunctionInfo):
            return self.interp.call_fn(
                st, FnV(g, None), [r, base if isinstance(base, Ref) else NONE, ClsV(klass)], {}, node)
    return FilePlugin.on_attr(self, st, base, name, node)

  def on_setattr(self, st, base, name, val, node):
    if isinstance(base, Ref):
      o = st.heap.get(base)
      if isinstance(o, Inst) and self.is_conf(o.klass):
        for r in self.registry_for(st, o.klass).items:
          d = st.heap.get(r)
          if isinstance(d, Inst) and d.attrs.get("name") == C(name):
            _, g = d.klass.lookup("__set__")
            if isinstance(g, FunctionInfo):
              return [(s, v if isinstance(v, Sig) else None) for s, v in
                      self.interp.call_fn(st, FnV(g, None), [r, base, val], {}, node)]
    return None

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, Ext):
      if f.name == "getattr" and len(args) == 3 and isinstance(args[0], Ref):
        nm = self.interp.resolve(st, args[1])
        o = st.heap.get(args[0])
        if isinstance(o, Inst) and isinstance(nm, C):
          if nm.v in o.attrs:
            return [(st, o.attrs[nm.v])]
          if isinstance(o.klass, Klass) and o.klass.lookup(nm.v)[1] is None:
            return [(st, args[2])]
      if f.name == "delattr" and len(args) == 2 and isinstance(args[0], Ref):
        nm = self.interp.resolve(st, args[1])
        o = st.heap.get(args[0])
        if isinstance(o, Inst) and isinstance(nm, C):
          a = dict(o.attrs)
          a.pop(nm.v, None)
          st.heap[args[0]] = Inst(o.klass, a)
          return [(st, NONE)]
      if f.name == "hasattr" and len(args) == 2 and isinstance(args[0], ClsV):
        nm = self.interp.resolve(st, args[1])
        if isinstance(nm, C):
          return [(st, C(args[0].klass.lookup(nm.v)[1] is not None
                         or nm.v in ("__init__", "__class__", "__doc__")))]
      if f.name == "vars" and len(args) == 1 and isinstance(args[0], Ref):
        o = st.heap.get(args[0])
        if isinstance(o, Inst) and o.klass == "Args":
          return [(st, self.interp.alloc(st, ("vars",), Dct(
              {C(k): v for k, v in o.attrs.items()})))]
      if f.name == "getattr" and len(args) >= 2 and isinstance(args[0], Ref):
        pass
    return FilePlugin.on_call(self, st, f, args, kwargs, node)
