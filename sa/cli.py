"""Path-sensitive analysis of the command-line drivers (file typestate)."""
import ast

from .absint import (C, E, Tup, Ref, FnV, Bound, ClsV, Ext, U, BM, Many, ExcV, NONE,
                     TRUE, FALSE, Sig, Inst, Dct, Plugin, PState, State, Interp,
                     AnalysisError, iter_vals, show)
from .model import Klass, FunctionInfo, AnchorError

OPENERS = {"open", "io.open", "codecs.open", "os.fdopen", "builtins.open"}
REMOVERS = {"os.remove", "os.unlink", "os.truncate", "shutil.rmtree", "os.rmdir"}
MOVERS = {"shutil.move", "os.rename", "os.replace", "os.renames",
          "shutil.copyfile", "shutil.copy", "shutil.copy2", "os.link"}
MODERS = {"shutil.copymode", "shutil.copystat", "os.chmod"}

INTEXT = U(("intext",))
OUTTEXT = U(("outtext",))
VALID = U(("reflow_valid",))


def mentions(v, pred):
  for x in iter_vals(v):
    if pred(x):
      return True
    if isinstance(x, U) and any(mentions(y, pred) for y in _kvals(x.key)):
      return True
  return False


def _kvals(k):
  out = []
  for x in k:
    if isinstance(x, tuple):
      out.extend(_kvals(x))
    elif hasattr(x, "_h"):
      out.append(x)
  return out


class FilePlugin(Plugin):
  """Models files: open/read/write/close with exceptions, moves and deletes.
  Events are appended to p.d['ev']."""

  MAXEV = 60

  def __init__(self, inline_mods=(), opaque=(), log=None):
    Plugin.__init__(self)
    self.inline_mods = tuple(inline_mods)
    self.opaque = set(opaque)
    self.opens = []
    self.handlers = {}     # qual -> callable(st, args, kwargs, node)

  def initial(self):
    return PState({"ev": ()})

  # ---- helpers
  def event(self, st, *ev):
    evs = st.p.d["ev"]
    if len(evs) >= self.MAXEV:
      raise AnalysisError("too many file events on one path")
    st.p.d["ev"] = evs + (tuple(ev),)

  def known(self, st, v):
    rs = self.interp.truth(st.copy(), v, None)
    ts = {t for _, t in rs}
    return ts.pop() if len(ts) == 1 else None

  def fork_raise(self, st, ok, exc, node, msg):
    """[(state, ok), (state', raise exc)]"""
    s2 = st.copy()
    s2.note(self.interp.where(s2, node), msg)
    return [(st, ok), (s2, Sig("raise", ExcV(exc, NONE)))]

  def inline_ok(self, st, info, args, kwargs):
    if info.qual in self.opaque:
      return False
    return info.mod.name in self.inline_mods

  def on_inline(self, st, info, args, kwargs, node):
    h = self.handlers.get(info.qual)
    if h is not None:
      return h(st, args, kwargs, node)
    return None

  def may_raise(self, st, f, node):
    if isinstance(f, U) and f.key and f.key[0] == "attr" and isinstance(f.key[1], Ext) \
        and f.key[1].name.startswith("logging"):
      return False
    if isinstance(f, BM) and f.name in ("format", "append", "extend", "join"):
      return False
    s = show(f)
    return "logger" not in s and "logging" not in s

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, ClsV) and f.klass.qual in self.handlers:
      return self.handlers[f.klass.qual](st, args, kwargs, node)
    if not isinstance(f, Ext):
      return None
    name = f.name
    if name in self.handlers:
      return self.handlers[name](st, args, kwargs, node)
    if name in OPENERS:
      return self.do_open(st, args, kwargs, node)
    if name in MOVERS and len(args) >= 2:
      self.event(st, "move" if name in ("shutil.move", "os.rename", "os.replace", "os.renames")
                 else "copy", args[0], args[1], self.interp.where(st, node))
      self.check_event(st, node)
      return self.fork_raise(st, NONE, "OSError", node, "%s fails" % name)
    if name == "os.dup" or (name.startswith("sys.std") and name.endswith(".fileno")):
      return [(st, U(("extcall", f) + tuple(args)))]
    if name in MODERS:
      self.event(st, "copymode", *(tuple(args[:2])))
      return self.fork_raise(st, NONE, "OSError", node, "%s fails" % name)
    if name in REMOVERS and args:
      self.event(st, "remove", args[0], self.interp.where(st, node))
      self.check_event(st, node)
      return self.fork_raise(st, NONE, "OSError", node, "%s fails" % name)
    return None

  def do_open(self, st, args, kwargs, node):
    path = args[0] if args else kwargs.get("file", kwargs.get("path", NONE))
    mode = args[1] if len(args) > 1 else kwargs.get("mode", C("r"))
    mode = self.interp.resolve(st, mode)
    path = self.interp.resolve(st, path)
    r = self.interp.alloc(st, self.interp.site(st, node, "file"), Inst("File", {
        "$path": path, "$mode": mode, "$st": C("open"), "$n": C(0),
        "$enc": kwargs.get("encoding", args[3] if len(args) > 3 else NONE),
        "$nl": kwargs.get("newline", args[5] if len(args) > 5 else NONE)}))
    self.opens.append((self.interp.where(st, node), path, mode,
                       kwargs.get("encoding"), kwargs.get("newline")))
    s2 = st.copy()
    del s2.heap[r]
    self.event(st, "open", r, path, mode, self.interp.where(st, node))
    self.check_event(st, node)
    s2.note(self.interp.where(s2, node), "open fails")
    return [(st, r), (s2, Sig("raise", ExcV("OSError", NONE)))]

  def on_attr(self, st, base, name, node):
    if isinstance(base, Ref):
      o = st.heap.get(base)
      if isinstance(o, Inst) and o.klass == "File" and not name.startswith("$"):
        return [(st, BM(base, name))]
    return None

  def on_method(self, st, base, name, args, kwargs, node):
    if not isinstance(base, Ref):
      return None
    o = st.heap.get(base)
    if not (isinstance(o, Inst) and o.klass == "File"):
      return None
    if name in ("read", "readlines"):
      v = self.content(st, base)
      return self.fork_raise(st, v, "UnicodeDecodeError", node, "read fails")
    if name in ("write", "writelines"):
      s2 = st.copy()
      a = dict(o.attrs)
      a["$n"] = C(a["$n"].v + 1)
      st.heap[base] = Inst("File", a)
      self.event(st, "write", base, args[0] if args else NONE, self.interp.where(st, node))
      self.check_event(st, node)
      s2.note(self.interp.where(s2, node), "write fails")
      return [(st, NONE), (s2, Sig("raise", ExcV("UnicodeEncodeError", NONE)))]
    if name == "close":
      self.close(st, base, node)
      return [(st, NONE)]
    return [(st, NONE)]

  def close(self, st, ref, node):
    o = st.heap.get(ref)
    if isinstance(o, Inst):
      a = dict(o.attrs)
      a["$st"] = C("closed")
      st.heap[ref] = Inst("File", a)
    self.event(st, "close", ref)

  def on_with(self, st, val, node, body):
    if isinstance(val, Ref):
      o = st.heap.get(val)
      if isinstance(o, Inst) and o.klass == "File":
        acc = [(st, None)]
        item = next((i for i in node.items if i.optional_vars is not None), None)
        if item is not None:
          acc = self.interp.assign(item.optional_vars, val, st)
        out = []
        for s, sg in acc:
          for s2, sg2 in body(s):
            self.close(s2, val, node)
            out.append((s2, sg2))
        return out
    return None

  def content(self, st, ref):
    return U(("content", ref))

  def check_event(self, st, node):
    pass


def is_write_mode(m):
  if not isinstance(m, C) or not isinstance(m.v, str):
    return None
  return any(c in m.v for c in "wax+")


def run_entry(model, plugin, qual, setup, max_steps=2000000):
  info = model.function(qual)
  it = Interp(model, plugin)
  it.max_steps = max_steps
  res = it.run_function(info, [], setup=setup)
  return it, res
