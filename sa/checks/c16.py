"""C16: abstract interpretation of config loading.

get_configdict is interpreted with every helper of its module inlined, over
small symbolic file graphs: the contents of the files are option values that
carry only their origin, path functions on literal paths are folded.  Every
way a file can be missing, unreadable, ill-formed or of the wrong shape is
followed and must leave as UserError; included paths must be resolved against
the including file; the merged dictionary must hold for every option the value
of the last file loaded that defines it; mutually including files must have a
terminating path and no other."""
import posixpath

from ..absint import (C, Ext, U, Tup, Inst, Sig, NONE, TRUE, FALSE, ExcV, show, BM, Ref,
                      ClsV, Dct, FnV, AnalysisError)
from ..cli import run_entry, FilePlugin
from ..model import AnchorError

FMT = "cmakelang.format.__main__"
COMMON = "cmakelang.common"


class P(FilePlugin):

  def __init__(self, ctx, files, fail=None):
    FilePlugin.__init__(self, inline_mods=[FMT])
    self.ctx, self.files, self.fail = ctx, files, fail
    self.loads = []
    self.faults = set()
    for n in ("json.load", "yaml.load"):
      self.handlers[n] = self.parse
    for n in ("json.loads", "yaml.safe_load"):
      self.handlers[n] = self.parse
    self.handlers["exec"] = self.do_exec
    self.handlers["cmakelang.config_util.ExecGlobal"] = self.execglobal

  def initial(self):
    p = FilePlugin.initial(self)
    p.d["loads"] = ()
    return p

  def domain(self, st, u):
    if (u.key[0] == "attr" and u.key[2] == "st_size") or u.key[0] == "filesize":
      return ("out", frozenset([C(0), NONE, FALSE]))
    return None

  def event(self, st, *ev):
    pass

  def may_raise(self, st, f, node):
    return False

  # ---- failures
  def maybe(self, st, kind, exc, ok, node):
    out = [(st, ok)]
    if self.fail == kind:
      s2 = st.copy()
      self.faults.add((kind, exc, self.interp.where(st, node)))
      s2.note(self.interp.where(s2, node), "%s: %s" % (kind, exc))
      return [(s2, Sig("raise", ExcV(exc, NONE)))]
    return out

  def do_open(self, st, args, kwargs, node):
    path = self.interp.resolve(st, args[0] if args else kwargs.get("file", NONE))
    if self.fail == "unreadable":
      self.faults.add(("unreadable", "PermissionError", self.interp.where(st, node)))
      st.note(self.interp.where(st, node), "unreadable file")
      return [(st, Sig("raise", ExcV("PermissionError", NONE)))]
    r = self.interp.alloc(st, self.interp.site(st, node, "file"), Inst("File", {
        "$path": path, "$st": C("open")}))
    return [(st, r)]

  def close(self, st, ref, node):
    pass

  def path_of(self, st, v):
    if isinstance(v, Ref) and isinstance(st.heap.get(v), Inst):
      p = st.heap[v].attrs.get("$path")
      return p.v if isinstance(p, C) else None
    if isinstance(v, U) and v.key[0] == "content":
      return v.key[1].v
    return None

  def load(self, st, path):
    st.p.d["loads"] = st.p.d["loads"] + ((path,),)
    if len(st.p.d["loads"]) > 8:
      raise AnalysisError("include loading does not end: %s" % (
          [x[0] for x in st.p.d["loads"]],))
    norm = posixpath.normpath(path) if path else path
    data = self.files.get(norm)
    if data is None:
      self.missing.append(path)
      data = {}
    return self.make(st, data)

  missing = ()
  MAXREC = 10   # the dictionaries are concrete: recursion ends by itself

  def make(self, st, v):
    if isinstance(v, dict):
      return self.interp.alloc(st, ("cfgdict",), Dct({C(k): self.make(st, x) for k, x in v.items()}))
    if isinstance(v, list):
      return self.interp._mklist(st, self.node, [self.make(st, x) for x in v], "inc")
    return v

  def parse(self, st, args, kwargs, node):
    self.node = node
    path = self.path_of(st, args[0]) if args else None
    if self.fail == "syntax":
      e = "yaml.YAMLError" if "yaml" in show(U(("x",))) else None
    name = self.interp.where(st, node)
    if self.fail in ("syntax", "encoding"):
      import ast
      d = ast.unparse(node.func) if hasattr(node, "func") else ""
      exc = "UnicodeDecodeError" if self.fail == "encoding" else (
          "yaml.YAMLError" if "yaml" in d else "ValueError")
      self.faults.add((self.fail, exc, name))
      st.note(name, "%s: %s" % (self.fail, exc))
      return [(st, Sig("raise", ExcV(exc, NONE)))]
    if self.fail == "shape":
      self.faults.add((self.fail, "not a dictionary", name))
      st.note(name, "the file holds a number, not a dictionary")
      return [(st, C(3))]
    return [(st, self.load(st, path))]

  def execglobal(self, st, args, kwargs, node):
    self.node = node
    a = self.interp.resolve(st, args[0])
    return [(st, self.interp.alloc(st, ("execglobal",), Dct({})))]

  def do_exec(self, st, args, kwargs, node):
    self.node = node
    if self.fail in ("syntax", "encoding"):
      self.faults.add((self.fail, "any Exception", self.interp.where(st, node)))
      st.note(self.interp.where(st, node), "config script raises")
      return [(st, Sig("raise", ExcV("SyntaxError", NONE)))]
    path = self.path_of(st, args[0])
    if isinstance(args[1], Ref):
      r = self.load(st, path)
      st.heap[args[1]] = Dct(dict(st.heap[r].items))
    return [(st, NONE)]

  # ---- files and paths
  def on_method(self, st, base, name, args, kwargs, node):
    self.node = node
    if isinstance(base, Ref) and isinstance(st.heap.get(base), Inst) and st.heap[base].klass == "File":
      if name == "read":
        return [(st, U(("content", C(self.path_of(st, base)))))]
      return [(st, NONE)]
    if isinstance(base, C) and not isinstance(base.v, (str, bytes)):
      st.note(self.interp.where(st, node), "%s of a %s" % (name, type(base.v).__name__))
      return [(st, Sig("raise", ExcV("AttributeError", NONE)))]
    return None

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, Ext):
      n = f.name
      vs = [self.interp.resolve(st, a) for a in args]
      if n == "isinstance" and len(vs) == 2 and show(vs[1]).endswith("Mapping"):
        return [(st, C(isinstance(vs[0], Ref) and isinstance(st.heap.get(vs[0]), Dct)))]
      if n in ("os.path.exists", "os.path.isfile"):
        return [(st, C(self.fail != "missing"))]
      if n == "os.path.getsize":
        return [(st, U(("filesize", vs[0])))]
      if n == "os.stat":
        if self.fail == "unreadable":
          return [(st, Sig("raise", ExcV("PermissionError", NONE)))]
        return [(st, U(("stat", vs[0])))]
      if n in ("os.path.expanduser", "os.path.expandvars", "os.fspath"):
        return [(st, vs[0])]
      if n.startswith("os.path.") and vs and all(isinstance(v, C) and isinstance(v.v, str) for v in vs):
        short = n[len("os.path."):]
        if short in ("realpath", "abspath"):
          return [(st, C(posixpath.normpath(posixpath.join("/cwd", vs[0].v))))]
        fn = getattr(posixpath, short, None)
        if short in ("join", "dirname", "basename", "isabs", "normpath", "splitext", "split"):
          r = fn(*[v.v for v in vs])
          if isinstance(r, tuple):
            return [(st, Tup(tuple(C(x) for x in r)))]
          return [(st, C(r))]
    return FilePlugin.on_call(self, st, f, args, kwargs, node)


def load_all(ctx, files, paths, fail=None, entry="get_configdict"):
  p = P(ctx, files, fail)
  p.missing = []
  def setup(st):
    import ast
    node = ctx.model.function(FMT + "." + entry).node
    return [Tup(tuple(C(x) for x in paths))], {}
  it, res = run_entry(ctx.model, p, FMT + "." + entry, setup, 400000)
  # a missing yaml package is an installation problem, not a config error
  res = [(s, v) for s, v in res if not (isinstance(v, Sig) and v.val.cls in (
      "ImportError", "ModuleNotFoundError"))]
  return p, it, res


def deref(it, st, v):
  if isinstance(v, Ref) and isinstance(st.heap.get(v), Dct):
    return {k.v: deref(it, st, x) for k, x in st.heap[v].items.items() if isinstance(k, C)}
  return v


def run(ctx):
  m = ctx.model
  info = m.function(FMT + ".get_configdict")
  w = info.where
  ctx.rule("every failing way to load a config file leaves get_configdict as UserError")
  ctx.rule("included paths are resolved against the including file")
  ctx.rule("the merged dictionary holds the value of the last loaded file, nested settings included")
  ctx.rule("loading terminates for files which include each other")
  val = lambda s: U(("from", s))

  # -- failures
  for ext in ("c.json", "c.yaml", "c.py", "c"):
    for fail in ("missing", "unreadable", "syntax", "encoding", "shape"):
      if ext == "c.py" and fail == "shape":
        continue
      p, it, res = load_all(ctx, {}, ["d/" + ext], fail)
      ctx.count("failure_scenarios")
      key = "%s config, %s" % ({"c": "extensionless"}.get(ext, ext[2:]), fail)
      if fail == "shape" and ext == "c":
        # falls back from json to yaml: still not a dictionary
        pass
      if not res:
        ctx.violation("no-outcome", "get_configdict [%s]" % key, w, "no path leaves the function")
      for st, v in res:
        ctx.count("failure_paths")
        if isinstance(v, Sig):
          if v.val.cls != COMMON + ".UserError":
            ctx.violation("not-user-error", "get_configdict [%s]" % key, w,
                          "a %s file leaves as %s: %s" % (fail, v.val.cls, " ; ".join(st.path(6))))
        else:
          ctx.violation("not-reported", "get_configdict [%s]" % key, w,
                        "a %s file is silently accepted: %s" % (fail, " ; ".join(st.path(6))))

  # -- include resolution and merging
  a = {"include": [C("inc/x.yaml"), C("../other.json")], "own": val("main"),
       "both": val("main"), "sect": {"p": val("main"), "q": val("main")},
       "sect2": {"u": val("main"), "cmds": {"foo": {"a": val("main")}, "both": {
           "k1": val("main"), "k2": val("main"), "k3": {"s": val("main")}}}}}
  x = {"include": [C("z.py")], "inx": val("x"), "both": val("x"),
       "sect": {"p": val("x"), "r": val("x")},
       "sect2": {"u": val("x"), "cmds": {"bar": {"b": val("x")}, "both": {
           "k1": val("x"), "k3": {"t": val("x")}}}}}
  o = {"ino": val("o"), "sect2": {"t": val("o")}}
  z = {"inz": val("z"), "sect": {"s": val("z")}, "both": val("z")}
  last = {"own": val("last"), "sect": {"q": val("last")}, "new": {"n": val("last")}}
  files = {"d/sub/main.yaml": a, "d/sub/inc/x.yaml": x, "d/other.json": o, "d/sub/inc/z.py": z,
           "e/last.py": last, "/abs/y.yaml": {"iny": val("y")},
           "d/abs.yaml": {"include": [C("/abs/y.yaml")], "top": val("abs")}}

  def expect_merge(loads):
    out = {}
    def merge(dst, src):
      for k, v in src.items():
        if k == "include":
          continue
        if isinstance(v, dict) and isinstance(dst.get(k), dict):
          merge(dst[k], v)
        elif isinstance(v, dict):
          dst[k] = {}
          merge(dst[k], v)
        else:
          dst[k] = v
    for l in loads:
      merge(out, files[posixpath.normpath(l)])
    return out

  for name, paths, must in (
      ("nested includes", ["d/sub/main.yaml", "e/last.py"],
       {"d/sub/main.yaml", "d/sub/inc/x.yaml", "d/other.json", "d/sub/inc/z.py", "e/last.py"}),
      ("absolute include", ["d/abs.yaml"], {"d/abs.yaml", "/abs/y.yaml"}),
      ("two files", ["e/last.py", "d/sub/inc/z.py"], {"e/last.py", "d/sub/inc/z.py"}),
      ("the same file twice", ["e/last.py", "d/sub/inc/z.py", "e/last.py"],
       {"e/last.py", "d/sub/inc/z.py"}),
      ("no file", [], set())):
    p, it, res = load_all(ctx, files, paths)
    ctx.count("merge_scenarios")
    good = [(st, v) for st, v in res if not isinstance(v, Sig)]
    bad = [(st, v) for st, v in res if isinstance(v, Sig)]
    for st, v in bad:
      ctx.violation("load-fails", "get_configdict [%s]" % name, w,
                    "loading well-formed files raises %s: %s" % (v.val.cls, " ; ".join(st.path(6))))
    if not good:
      ctx.violation("no-outcome", "get_configdict [%s]" % name, w, "loading never returns")
    for st, v in good:
      ctx.count("merge_paths")
      loads = [l[0] for l in st.p.d["loads"]]
      ctx.sample("%s: loads %s" % (name, loads))
      got = {posixpath.normpath(l) for l in loads}
      if got != must:
        ctx.violation("include-resolution", "get_configdict [%s]" % name, w,
                      "loads %s instead of %s" % (sorted(got), sorted(must)))
        continue
      # explicitly listed files keep their order
      if paths:
        idx = [max(i for i, l in enumerate(loads) if posixpath.normpath(l) == posixpath.normpath(pp)) for pp in paths]
        if loads.count(paths[0]) == 1 and idx != sorted(idx):
          ctx.violation("load-order", "get_configdict [%s]" % name, w,
                        "config files are loaded in the order %s" % loads)
      want = expect_merge(loads)
      d = deref(it, st, v)
      if "include" in d:
        d.pop("include")
      if d != want:
        diff = sorted(k for k in set(d) | set(want) if d.get(k) != want.get(k))
        ctx.violation("merge", "get_configdict [%s; %s]" % (name, ",".join(diff)), w,
                      "merged settings for %s are %s, expected %s" % (
                          diff, {k: _s(d.get(k)) for k in diff}, {k: _s(want.get(k)) for k in diff}))

  # -- cycles
  cyc = {"self": ({"d/a.py": {"include": [C("a.py")], "k": val("a")}}, ["d/a.py"]),
         "mutual": ({"d/a.py": {"include": [C("b.py")], "k": val("a")},
                     "d/b.py": {"include": [C("a.py")], "l": val("b")}}, ["d/a.py"]),
         "mutual across directories": (
             {"d/a.py": {"include": [C("x/b.py")], "k": val("a")},
              "d/x/b.py": {"include": [C("../a.py")], "l": val("b")}}, ["d/a.py"]),
         "three files": ({"d/a.py": {"include": [C("b.py")], "k": val("a")},
                          "d/b.py": {"include": [C("c.py")], "l": val("b")},
                          "d/c.py": {"include": [C("a.py")], "m": val("c")}}, ["d/a.py"])}
  for name, (files2, paths) in sorted(cyc.items()):
    ctx.count("cycle_scenarios")
    try:
      p, it, res = load_all(ctx, files2, paths)
    except AnalysisError as ex:
      ctx.violation("include-cycle", "get_configdict [%s]" % name, w,
                    "loading files which include each other does not end (%s)" % ex)
      continue
    if not res:
      ctx.violation("include-cycle", "get_configdict [%s]" % name, w,
                    "loading files which include each other never returns")
    for st, v in res:
      if isinstance(v, Sig) and v.val.cls != COMMON + ".UserError":
        ctx.violation("include-cycle", "get_configdict [%s]" % name, w,
                      "files which include each other end in %s" % v.val.cls)
  # -- search for a config file, get_config
  find(ctx)
  ctx.expect("failure_scenarios", 19)
  ctx.expect("merge_paths", 4)
  ctx.expect("cycle_scenarios", 4)


def find(ctx):
  """get_config must use the given files, and only search without them."""
  m = ctx.model
  p = P(ctx, {"g/one.py": {"k": U(("from", "one"))}})
  p.missing = []
  searched = []
  def h(st, args, kwargs, node):
    searched.append(1)
    return [(st, NONE)]
  p.handlers[FMT + ".find_config_file"] = h
  it, res = run_entry(m, p, FMT + ".get_config", lambda st: ([U(("infile",)), Tup((C("g/one.py"),))], {}))
  for st, v in res:
    ctx.count("get_config_paths")
    d = deref(it, st, v) if not isinstance(v, Sig) else None
    if d != {"k": U(("from", "one"))}:
      ctx.violation("explicit-config", FMT + ".get_config", m.function(FMT + ".get_config").where,
                    "explicitly given config files are not what is loaded (%s)" % d)


def _s(v):
  return {k: _s(x) for k, x in v.items()} if isinstance(v, dict) else show(v) if v is not None else None
