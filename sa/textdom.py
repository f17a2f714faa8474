"""Symbolic strings: concatenations of literals and opaque values.

A Text is U(("text", part, ...)); a part is C(str) or a value whose str() is
meant.  Kept flat and with adjacent literals joined."""
import ast
import string

from .absint import C, U, BM, Ref, Tup, Lst, Sig, Inst, Many, NONE
from .cli import FilePlugin


def parts(v):
  if isinstance(v, U) and v.key[0] == "text":
    return list(v.key[1:])
  if isinstance(v, C):
    return [v] if v.v != "" else []
  return [v]


def text(ps):
  out = []
  for p in ps:
    for q in parts(p):
      if isinstance(q, C):
        q = C(str(q.v))
      if out and isinstance(out[-1], C) and isinstance(q, C):
        out[-1] = C(out[-1].v + q.v)
      else:
        out.append(q)
  if not out:
    return C("")
  if len(out) == 1 and isinstance(out[0], C):
    return out[0]
  return U(("text",) + tuple(out))


def is_text(v):
  return (isinstance(v, C) and isinstance(v.v, str)) or (isinstance(v, U) and v.key[0] == "text")


def format_parts(fmt, args, kwargs):
  """Parts of fmt.format(*args, **kwargs), or None."""
  out, auto = [], 0
  try:
    toks = list(string.Formatter().parse(fmt))
  except ValueError:
    return None
  for lit, field, spec, conv in toks:
    if lit:
      out.append(C(lit))
    if field is None:
      continue
    if field == "":
      field = str(auto)
      auto += 1
    if field.isdigit():
      if int(field) >= len(args):
        return None
      v = args[int(field)]
    elif field in kwargs:
      v = kwargs[field]
    else:
      return None
    if spec in ("", "s", "d") and not conv:
      out.append(v)
    else:
      out.append(U(("fmtspec", conv or "", spec or "", v)))
  return out


class TextPlugin(FilePlugin):

  def event(self, st, *ev):
    pass

  def may_raise(self, st, f, node):
    return False

  def fork_raise(self, st, ok, exc, node, msg):
    return [(st, ok)]

  def res(self, st, v):
    return self.interp.resolve(st, v)

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, BM) and isinstance(f.base, C) and isinstance(f.base.v, str):
      r = self.str_method(st, f.base, f.name, args, kwargs)
      if r is not None:
        return [(st, r)]
    if isinstance(f, U) and f.key[0] == "attr" and f.key[2] in ("replace", "format", "join"):
      r = self.str_method(st, f.key[1], f.key[2], args, kwargs)
      if r is not None:
        return [(st, r)]
    return FilePlugin.on_call(self, st, f, args, kwargs, node)

  def str_method(self, st, base, name, args, kwargs):
    args = [self.res(st, a) for a in args]
    if name == "format" and isinstance(base, C):
      ps = format_parts(base.v, args, {k: self.res(st, v) for k, v in kwargs.items()})
      if ps is not None:
        return text(ps)
    if name == "join" and isinstance(base, C) and len(args) == 1:
      items = None
      if isinstance(args[0], Tup):
        items = args[0].items
      elif isinstance(args[0], Ref) and isinstance(st.heap.get(args[0]), Lst):
        items = st.heap[args[0]].items
      if items is not None and not any(isinstance(x, Many) for x in items):
        ps = []
        for i, x in enumerate(items):
          if i:
            ps.append(base)
          ps.append(self.res(st, x))
        return text(ps)
    if name == "replace" and len(args) == 2 and all(isinstance(a, C) for a in args) and not isinstance(base, C):
      return U(("repl", base, args[0], args[1]))
    return None

  def on_binop(self, st, op, a, b, node):
    if isinstance(op, ast.Add) and (is_text(a) or is_text(b)) and not (isinstance(a, C) and isinstance(b, C)):
      return [(st, text([a, b]))]
    if isinstance(op, ast.Mod) and isinstance(a, C) and isinstance(a.v, str) and not isinstance(b, C):
      items = list(b.items) if isinstance(b, Tup) else [b]
      bits = a.v.split("%s")
      if len(bits) == len(items) + 1 and not any("%" in x for x in bits):
        ps = [C(bits[0])]
        for x, t in zip(items, bits[1:]):
          ps += [self.res(st, x), C(t)]
        return [(st, text(ps))]
    return FilePlugin.on_binop(self, st, op, a, b, node)


def flatten_fstr(v):
  """U(("fstr", fmt, *vals)) -> text"""
  fmt, vals = v.key[1], list(v.key[2:])
  out = []
  for f in fmt:
    out.append(C(f) if f is not None else vals.pop(0))
  return text(out)
