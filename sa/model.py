"""Program model of /repo/cmakelang: modules, classes, functions, names.

Everything here is derived from the current source text with `ast`; nothing of
the repository is imported or executed.
"""
import ast
import hashlib
import os


class AnchorError(Exception):
  """The source no longer has a construct the analysis is anchored to."""


REPO = os.environ.get("VERIF_REPO", "/repo")

SKIP_DIRS = {"test", "tests", "doc", "__pycache__", "pypi", "vscode_extension",
             "contrib", "tools", "command_tests"}


class Module:
  def __init__(self, name, path, is_pkg):
    self.name = name
    self.path = path
    self.is_pkg = is_pkg
    with open(path, encoding="utf-8") as f:
      self.source = f.read()
    self.tree = ast.parse(self.source, path)
    self.bind = {}      # name -> list of binding tuples in textual order
    self.relpath = None
    for node in ast.walk(self.tree):
      for ch in ast.iter_child_nodes(node):
        ch._parent = node
    self._scan(self.tree.body)

  def _add(self, name, b):
    self.bind.setdefault(name, []).append(b)

  def _scan(self, body):
    for st in body:
      if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
        self._add(st.name, ("def", st))
      elif isinstance(st, ast.ClassDef):
        self._add(st.name, ("class", st))
      elif isinstance(st, ast.Import):
        for a in st.names:
          if a.asname:
            self._add(a.asname, ("mod", a.name))
          else:
            self._add(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
      elif isinstance(st, ast.ImportFrom):
        base = self._abs(st)
        for a in st.names:
          self._add(a.asname or a.name, ("from", base, a.name))
      elif isinstance(st, ast.Assign):
        for t in st.targets:
          for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
              self._add(n.id, ("assign", st))
      elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
        if isinstance(st.target, ast.Name):
          self._add(st.target.id, ("assign", st))
      elif isinstance(st, ast.If):
        # sys.version_info conditionals: take the py3 branch
        branch = version_branch(st.test)
        if branch is True:
          self._scan(st.body)
        elif branch is False:
          self._scan(st.orelse)
        else:
          self._scan(st.body)
          self._scan(st.orelse)
      elif isinstance(st, ast.Try):
        self._scan(st.body)
        for h in st.handlers:
          pass
      elif isinstance(st, (ast.For, ast.While, ast.With)):
        if isinstance(st, ast.For):
          for n in ast.walk(st.target):
            if isinstance(n, ast.Name):
              self._add(n.id, ("other", st))
        self._scan(st.body)

  def _abs(self, st):
    if st.level == 0:
      return st.module or ""
    parts = self.name.split(".")
    if not self.is_pkg:
      parts = parts[:-1]
    parts = parts[:len(parts) - (st.level - 1)]
    return ".".join(parts + ([st.module] if st.module else []))


def version_branch(test):
  """True/False if `test` is a decidable sys.version_info comparison."""
  if (isinstance(test, ast.Compare) and len(test.ops) == 1
      and "version_info" in ast.dump(test.left)):
    op = test.ops[0]
    c = test.comparators[0]
    lt = isinstance(op, (ast.Lt, ast.LtE))
    gt = isinstance(op, (ast.Gt, ast.GtE))
    val = None
    if isinstance(c, ast.Constant):
      val = (c.value,)
    elif isinstance(c, ast.Tuple):
      val = tuple(getattr(e, "value", None) for e in c.elts)
    cur = (3, 12, 3)
    if val and all(isinstance(v, int) for v in val):
      if isinstance(c, ast.Constant):
        cur0 = 3
        v = val[0]
        if isinstance(op, ast.Lt): return cur0 < v
        if isinstance(op, ast.LtE): return cur0 <= v
        if isinstance(op, ast.Gt): return cur0 > v
        if isinstance(op, ast.GtE): return cur0 >= v
        if isinstance(op, ast.Eq): return cur0 == v
        if isinstance(op, ast.NotEq): return cur0 != v
      else:
        if isinstance(op, ast.Lt): return cur < val
        if isinstance(op, ast.LtE): return cur <= val
        if isinstance(op, ast.Gt): return cur > val
        if isinstance(op, ast.GtE): return cur >= val
  return None


class Klass:
  def __init__(self, model, mod, node, qual):
    self.model = model
    self.mod = mod
    self.node = node
    self.qual = qual       # module.Class
    self.name = node.name
    self.members = {}      # name -> FunctionInfo | ('expr', astnode)
    self.ext_members = {}  # X.attr = X(n) at module level
    for st in node.body:
      if isinstance(st, ast.FunctionDef):
        self.members[st.name] = FunctionInfo(model, mod, st, qual + "." + st.name, self)
      elif isinstance(st, ast.Assign):
        for t in st.targets:
          if isinstance(t, ast.Name):
            self.members[t.id] = ("expr", st.value)
      elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
        self.members[st.target.id] = ("expr", st.value)
    self._mro = None

  def base_exprs(self):
    return self.node.bases

  def mro(self):
    """Linearised list of Klass (C3 for simple cases) and ext base names."""
    if self._mro is None:
      self._mro = [self]
      seen = {self.qual}
      out = [self]
      for b in self.node.bases:
        ent = self.model.resolve_expr(self.mod, b)
        if isinstance(ent, Klass):
          for k in ent.mro():
            key = k.qual if isinstance(k, Klass) else k
            if key not in seen:
              seen.add(key)
              out.append(k)
        else:
          nm = dotted(b) or "?"
          if nm not in seen:
            seen.add(nm)
            out.append(nm)
      self._mro = out
    return self._mro

  def lookup(self, name):
    for k in self.mro():
      if isinstance(k, Klass):
        if name in k.members:
          return k, k.members[name]
        if name in k.ext_members:
          return k, k.ext_members[name]
    return None, None

  def lookup_after(self, klass, name):
    mro = self.mro()
    try:
      i = mro.index(klass)
    except ValueError:
      i = -1
    for k in mro[i + 1:]:
      if isinstance(k, Klass) and name in k.members:
        return k, k.members[name]
    return None, None

  def issub(self, other):
    for k in self.mro():
      if k is other or (isinstance(k, str) and k == other):
        return True
    return False

  def __repr__(self):
    return "<Klass %s>" % self.qual


class FunctionInfo:
  def __init__(self, model, mod, node, qual, klass=None):
    self.model = model
    self.mod = mod
    self.node = node
    self.qual = qual
    self.klass = klass
    self.decos = [dotted(d) or (dotted(d.func) if isinstance(d, ast.Call) else "?")
                  for d in getattr(node, "decorator_list", [])]
    self.is_classmethod = "classmethod" in self.decos
    self.is_static = "staticmethod" in self.decos
    self.is_property = "property" in self.decos or "abc.abstractproperty" in self.decos
    self.is_ctxmgr = any(d.endswith("contextmanager") for d in self.decos)
    self._gen = None

  @property
  def is_generator(self):
    if self._gen is None:
      self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                      for n in walk_own(self.node))
    return self._gen

  @property
  def params(self):
    a = self.node.args
    return [x.arg for x in a.posonlyargs + a.args]

  @property
  def where(self):
    return "%s:%d" % (self.mod.relpath, getattr(self.node, "lineno", 0))

  def __repr__(self):
    return "<Fn %s>" % self.qual


def walk_own(fnnode):
  """Walk nodes of a function without entering nested function bodies."""
  body = fnnode.body if isinstance(fnnode.body, list) else [fnnode.body]
  stack = list(body)
  while stack:
    n = stack.pop()
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    stack.extend(ast.iter_child_nodes(n))


def dotted(node):
  if isinstance(node, ast.Name):
    return node.id
  if isinstance(node, ast.Attribute):
    b = dotted(node.value)
    return b + "." + node.attr if b else None
  return None


class Model:
  def __init__(self, repo=None):
    self.repo = repo or REPO
    self.modules = {}
    self.classes = {}
    self.functions = {}
    self._load()
    self._index()

  def _load(self):
    root = os.path.join(self.repo, "cmakelang")
    if not os.path.isdir(root):
      raise AnchorError("no cmakelang package in %s" % self.repo)
    for dp, dns, fns in os.walk(root):
      dns[:] = sorted(d for d in dns if not d.endswith("_tests") and
                      (d not in SKIP_DIRS or (d == "tools" and dp != root)))
      for fn in sorted(fns):
        if not fn.endswith(".py"):
          continue
        if fn in ("tests.py", "test.py", "conf.py") or fn.endswith("_tests.py") \
            or fn.endswith(".jinja.py"):
          continue
        path = os.path.join(dp, fn)
        rel = os.path.relpath(path, self.repo)
        name = rel[:-3].replace(os.sep, ".")
        is_pkg = False
        if name.endswith(".__init__"):
          name = name[:-len(".__init__")]
          is_pkg = True
        m = Module(name, path, is_pkg)
        m.relpath = rel
        self.modules[name] = m

  def _index(self):
    for m in self.modules.values():
      for name, binds in m.bind.items():
        for b in binds:
          if b[0] == "def":
            q = m.name + "." + name
            self.functions[q] = FunctionInfo(self, m, b[1], q)
          elif b[0] == "class":
            q = m.name + "." + name
            k = Klass(self, m, b[1], q)
            self.classes[q] = k
            for mem in k.members.values():
              if isinstance(mem, FunctionInfo):
                self.functions[mem.qual] = mem
    # module-level `Class.NAME = expr`
    self.enum_members = {}
    for m in self.modules.values():
      for st in m.tree.body:
        if (isinstance(st, ast.Assign) and len(st.targets) == 1
            and isinstance(st.targets[0], ast.Attribute)):
          ent = self.resolve_expr(m, st.targets[0].value)
          if isinstance(ent, Klass):
            ent.ext_members[st.targets[0].attr] = ("expr", st.value)
            if (isinstance(st.value, ast.Call)
                and self.resolve_expr(m, st.value.func) is ent):
              self.enum_members.setdefault(ent.qual, {})[st.targets[0].attr] = (
                  st.value.args[0].value if st.value.args and
                  isinstance(st.value.args[0], ast.Constant) else None)

  def module(self, name):
    if name not in self.modules:
      raise AnchorError("module %s not found" % name)
    return self.modules[name]

  def klass(self, qual):
    if qual not in self.classes:
      raise AnchorError("class %s not found" % qual)
    return self.classes[qual]

  def function(self, qual):
    if qual not in self.functions:
      raise AnchorError("function %s not found" % qual)
    return self.functions[qual]

  def resolve_name(self, mod, name, seen=()):
    """Resolve a module-global name to Klass | FunctionInfo | Module |
    ('ext', dotted) | ('var', Module, name) | None."""
    if (mod.name, name) in seen:
      return None
    binds = mod.bind.get(name)
    if not binds:
      sub = mod.name + "." + name
      if sub in self.modules:
        return self.modules[sub]
      return None
    b = binds[-1]
    if b[0] == "def":
      return self.functions[mod.name + "." + name]
    if b[0] == "class":
      return self.classes[mod.name + "." + name]
    if b[0] == "mod":
      if b[1] in self.modules:
        return self.modules[b[1]]
      return ("ext", b[1])
    if b[0] == "from":
      return self.resolve_from(b[1], b[2], seen + ((mod.name, name),))
    return ("var", mod, name)

  def resolve_from(self, base, name, seen=()):
    full = base + "." + name if base else name
    if base in self.modules:
      m = self.modules[base]
      if name in m.bind:
        return self.resolve_name(m, name, seen)
      if full in self.modules:
        return self.modules[full]
      return None
    if full in self.modules:
      return self.modules[full]
    return ("ext", full)

  def resolve_attr(self, ent, attr):
    if isinstance(ent, Module):
      if attr in ent.bind:
        return self.resolve_name(ent, attr)
      if ent.name + "." + attr in self.modules:
        return self.modules[ent.name + "." + attr]
      return None
    if isinstance(ent, Klass):
      k, m = ent.lookup(attr)
      if isinstance(m, FunctionInfo):
        return m
      return None
    if isinstance(ent, tuple) and ent[0] == "ext":
      return ("ext", ent[1] + "." + attr)
    return None

  def resolve_expr(self, mod, node):
    """Resolve a Name/Attribute expression evaluated at module scope."""
    if isinstance(node, ast.Name):
      r = self.resolve_name(mod, node.id)
      if r is None and node.id not in mod.bind:
        return ("ext", node.id)
      return r
    if isinstance(node, ast.Attribute):
      base = self.resolve_expr(mod, node.value)
      if base is None:
        return None
      return self.resolve_attr(base, node.attr)
    return None

  def digest(self):
    h = hashlib.sha256()
    for n in sorted(self.modules):
      h.update(n.encode()); h.update(self.modules[n].source.encode())
    return h.hexdigest()[:16]
