"""Abstract interpretation of the formatter, one kind of layout node at a time.

A parse tree of a given shape is built with symbolic text; the layout tree is
made by the formatter's own create_box_tree() and lock().  One node's _reflow()
is then interpreted with symbolic configuration and cursor, while reflow() of
its children is summarised by its contract: the child is placed at the cursor
it is given and ends at an unknown later place, which is returned.  Rows and
columns are linear terms over these unknowns, so that the place of each child
can be compared with the end of the one before it.  write() of the node is
interpreted from every resulting state.  The contract itself is established by
interpreting reflow() of every class, and _reflow()/write() of the leaves."""
import ast

from .absint import (C, E, U, Ref, Inst, Tup, Lst, Sig, NONE, TRUE, FALSE, ClsV, Ext, ExcV, FnV,
                     Bound, BM, Many, Interp, State, PState, AnalysisError, show, ModV)
from .lexmodel import linear
from .model import AnchorError, Klass
from .textdom import TextPlugin

FMT = "cmakelang.format.formatter"
COMMON = "cmakelang.parse.common"
TTYPE = "cmakelang.lex.TokenType"
NTYPE = COMMON + ".NodeType"
PARSE = "cmakelang.parse."
CONFIG = U(("config",))

KLASS = {
    "BODY": PARSE + "body_nodes.BodyNode", "FLOW_CONTROL": PARSE + "body_nodes.FlowControlNode",
    "WHITESPACE": PARSE + "simple_nodes.WhitespaceNode", "COMMENT": PARSE + "simple_nodes.CommentNode",
    "ONOFFSWITCH": PARSE + "simple_nodes.OnOffNode", "STATEMENT": PARSE + "statement_node.StatementNode",
    "FUNNAME": PARSE + "statement_node.FunctionNameNode", "ATWORD": PARSE + "statement_node.AtWordNode",
    "ATWORDSTATEMENT": PARSE + "statement_node.AtWordStatementNode",
    "ARGGROUP": PARSE + "argument_nodes.ArgGroupNode", "KWARGGROUP": PARSE + "argument_nodes.KeywordGroupNode",
    "KEYWORD": PARSE + "argument_nodes.KeywordNode", "PARGGROUP": PARSE + "argument_nodes.PositionalGroupNode",
    "FLAGGROUP": PARSE + "additional_nodes.FlagGroupNode", "PARENGROUP": PARSE + "argument_nodes.ParenGroupNode",
}
# values of options the formatter distinguishes by name
DOMAINS = {
    "dangle_align": ("prefix", "prefix-indent", "child"),
    "command_case": ("lower", "upper", "canonical", "unchanged"),
    "keyword_case": ("lower", "upper", "unchanged"),
    "fractional_tab_policy": ("use-space", "round-up"),
}


class Shape:
  """A parse node: kind, children (Shapes or token type names)."""
  n = 0

  def __init__(self, kind, *items, **attrs):
    self.kind, self.items, self.attrs = kind, items, attrs
    self.spell = None
    self.klass = attrs.pop("klass", None) or KLASS.get(kind, COMMON + ".TreeNode")
    Shape.n += 1
    self.id = Shape.n

  def kids(self):
    return [x for x in self.items if isinstance(x, Shape)]

  def leaves(self):
    """Written leaves in order: list of (shape, 'own'|'comment')."""
    if self.kind == "WHITESPACE":
      return []
    if self.kind in LEAVES:
      out = [self]
      for x in self.kids():
        out.extend(x.leaves())
      return out
    out = []
    for x in self.kids():
      out.extend(x.leaves())
    return out

  def written_kids(self):
    return [x for x in self.kids() if x.kind != "WHITESPACE" or self.kind == "BODY"]

  def ends_in_line_comment(self):
    """What is put where this node ends would become part of a comment.  An
    empty group behind a comment is placed on a line of its own, which is
    checked where the group is laid out."""
    if self.kind in LEAVES:
      k = self.kids()
      return k[-1].ends_in_line_comment() if k else self.is_line_comment()
    k = self.written_kids()
    return k[-1].ends_in_line_comment() if k else False

  def is_line_comment(self):
    if self.kind == "ONOFFSWITCH":
      return True
    return self.kind == "COMMENT" and "COMMENT" in self.items

  def __str__(self):
    if self.kind in ("ARGUMENT", "FLAG", "KEYWORD", "FUNNAME", "ATWORD"):
      k = self.kids()
      return self.kind.lower() + (" " + str(k[0]) if k else "")
    if self.kind == "COMMENT":
      return "#line" if "COMMENT" in self.items else "#[[bracket]]"
    if self.kind == "ONOFFSWITCH":
      return "#" + self.items[0].lower().replace("format_", "")
    if self.kind == "LPAREN":
      return "("
    if self.kind == "RPAREN":
      return ")"
    if self.kind == "WHITESPACE":
      return "~"
    return self.kind.lower() + "[" + ", ".join(str(x) for x in self.kids()) + "]"


WORDS = ("FUNNAME", "KEYWORD", "FLAG", "ATWORD")
LEAVES = ("ARGUMENT", "FLAG", "KEYWORD", "FUNNAME", "ATWORD", "COMMENT", "ONOFFSWITCH", "LPAREN", "RPAREN")


def line():
  return Shape("COMMENT", "COMMENT")


def gapped():
  """a line comment whose node ends with the white space before another one"""
  return Shape("COMMENT", "COMMENT", "NEWLINE", "WHITESPACE")


def bracket():
  return Shape("COMMENT", "BRACKET_COMMENT")


def off():
  return Shape("ONOFFSWITCH", "FORMAT_OFF")


def on():
  return Shape("ONOFFSWITCH", "FORMAT_ON")


def arg(*c):
  return Shape("ARGUMENT", "WORD", *c)


def flag(*c):
  return Shape("FLAG", "WORD", *c)


def lp():
  return Shape("LPAREN", "LEFT_PAREN")


def rp():
  return Shape("RPAREN", "RIGHT_PAREN")


def parg(*c):
  return Shape("PARGGROUP", *c)


def group(*c):
  return Shape("ARGGROUP", *c)


def kw(*c):
  return Shape("KWARGGROUP", Shape("KEYWORD", "WORD"), *c)


def paren(inner, *c):
  return Shape("PARENGROUP", lp(), inner, rp(), *c)


def stmt(inner, *c):
  return Shape("STATEMENT", Shape("FUNNAME", "WORD"), lp(), inner, rp(), *c)


def atstmt(*c):
  return Shape("ATWORDSTATEMENT", Shape("ATWORD", "ATWORD"), *c)


def body(*c):
  return Shape("BODY", *c)


def ws():
  return Shape("WHITESPACE", "NEWLINE", "NEWLINE")


class LPlugin(TextPlugin):
  CONCRETE = True
  MAXREC = 14

  def __init__(self, model, nlines=1, active=True, contract=True):
    TextPlugin.__init__(self, inline_mods=[FMT, COMMON, PARSE + "simple_nodes", PARSE + "util",
                                           PARSE + "argument_nodes"])
    self.model = model
    self.nlines = nlines
    self.active = active
    self.contract = contract
    self.layout = model.klass(FMT + ".LayoutNode")
    self.cursor = model.klass(FMT + ".Cursor")
    self.root = None
    self.comment_lines = model.function(FMT + ".format_comment_lines")
    self.tag = model.functions.get(PARSE + "util.comment_is_tag")
    self.write_at = FMT + ".CursorFile"
    self.switches = ()

  def after_stmt(self, st):
    # nothing but the locals and the tree is alive between the statements of
    # the outermost call
    if st.depth != 1 or "root" not in st.p.d:
      return
    todo = [st.p.d["root"], st.p.d.get("keep")] + [v for f in st.frames.values() for v in f.values()] + [st.exc] + \
        list(st.uattr) + list(st.uattr.values())
    seen = set()
    while todo:
      v = todo.pop()
      if isinstance(v, Ref):
        if v in seen:
          continue
        seen.add(v)
        o = st.heap.get(v)
        if o is not None:
          todo.extend(o.values())
      elif isinstance(v, (tuple, list, frozenset)):
        todo.extend(v)
      elif isinstance(v, U):
        todo.extend(v.key)
      elif isinstance(v, Tup):
        todo.extend(v.items)
      elif hasattr(v, "__slots__"):
        todo.extend(getattr(v, n, None) for n in v.__slots__)
    if len(seen) < len(st.heap):
      st.heap = {k: o for k, o in st.heap.items() if k in seen}

  def initial(self):
    return PState({"ev": (), "w": (), "asked": ()})

  def domain(self, st, u):
    if isinstance(u, U) and u.key[0] == "attr" and u.key[2] in DOMAINS:
      return ("in", frozenset(C(x) for x in DOMAINS[u.key[2]]))
    if isinstance(u, U) and u.key[0] == "option" and u.key[1] in DOMAINS:
      return ("in", frozenset(C(x) for x in DOMAINS[u.key[1]]))
    if isinstance(u, U) and (u.key[0] in ("begin", "end", "off-location") or u.key[0] == "attr" and
                             isinstance(u.key[1], U) and u.key[1].key[0] in ("begin", "end", "off-location")):
      return ("out", frozenset([NONE]))
    return None

  def on_attr(self, st, base, name, node):
    if isinstance(base, Ext) and base.name == "sys" and name == "version_info" or base == Ext("sys.version_info"):
      return [(st, C(3) if name == "major" else Tup((C(3), C(12))))]
    return TextPlugin.on_attr(self, st, base, name, node)

  # -- cursors
  def inst(self, st, v):
    v = self.interp.resolve(st, v)
    o = st.heap.get(v) if isinstance(v, Ref) else None
    return (v, o) if isinstance(o, Inst) and isinstance(o.klass, Klass) else (v, None)

  def dunder(self, st, v, name, args, node):
    v, o = self.inst(st, v)
    if o is None:
      return None
    _, fn = o.klass.lookup(name)
    if fn is None:
      return None
    return self.interp.inline(st, FnV(fn, None), [v] + args, {}, node)

  def on_binop(self, st, op, a, b, node):
    name = {ast.Add: "__add__", ast.Sub: "__sub__"}.get(type(op))
    if name:
      got = self.dunder(st, a, name, [b], node)
      if got is not None:
        return got
    return TextPlugin.on_binop(self, st, op, a, b, node)

  def on_subscript(self, st, base, idx, node):
    if base == Ext("sys.version_info") and isinstance(idx, C) and idx.v in (0, 1):
      return [(st, C((3, 12)[idx.v]))]
    got = self.dunder(st, base, "__getitem__", [idx], node)
    if got is not None:
      return got
    if base == U(("options", "layout_passes")):
      return None
    return TextPlugin.on_subscript(self, st, base, idx, node)

  def on_set_subscript(self, st, base, idx, val, node):
    got = self.dunder(st, base, "__setitem__", [idx, val], node)
    if got is not None:
      return [(s, v if isinstance(v, Sig) else None) for s, v in got]
    return TextPlugin.on_set_subscript(self, st, base, idx, val, node)

  def on_star(self, st, v, node):
    v, o = self.inst(st, v)
    if o is None or o.klass.lookup("__getitem__")[1] is None:
      return None
    items = []
    for i in range(9):
      rs = self.dunder(st, v, "__getitem__", [C(i)], node)
      if len(rs) != 1:
        return None
      st, x = rs[0]
      if isinstance(x, Sig):
        return [(st, items)]
      items.append(x)
    return None

  def xy(self, st, v):
    v, o = self.inst(st, v)
    if o is None:
      w = self.interp.resolve(st, v)
      if isinstance(w, Tup) and len(w.items) == 2:
        return w.items
      return None
    out = []
    for n in ("x", "y"):
      if n not in o.attrs:
        return None
      out.append(self.interp.resolve(st, o.attrs[n]))
    return tuple(out)

  def new_cursor(self, st, x, y, tag):
    return self.interp.alloc(st, ("cursor", tag), Inst(self.cursor, {"x": x, "y": y}))

  # -- text
  def lines(self, st, base, node):
    n = self.nlines
    return self.interp.alloc(st, self.interp.site(st, node, "lines"),
                             Lst([U(("line", base, i)) for i in range(n)]))

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, U) and f.key[0] == "attr" and len(f.key) == 3:
      got = self.text_method(st, f.key[1], f.key[2], args, kwargs, node)
      if got is not None:
        return [(st, got)]
    if isinstance(f, BM) and isinstance(f.base, (U, C)):
      got = self.text_method(st, f.base, f.name, args, kwargs, node)
      if got is not None:
        return [(st, got)]
    name = f.name if isinstance(f, Ext) else None
    if name == "re.sub" and len(args) >= 3:
      a = [self.interp.resolve(st, x) for x in args]
      return [(st, U(("resub", a[0], a[1], a[2])))]
    if name in ("getattr", "builtins.getattr") and len(args) == 2:
      a = [self.interp.resolve(st, x) for x in args]
      if isinstance(a[1], U):
        d = self.interp.get_dom(st, a[1])
        if d is not None and d[0] == "in":
          out = []
          for v in sorted(d[1], key=repr):
            s2 = st.copy()
            if self.interp.restrict(s2, a[1], frozenset([v]), True) and isinstance(v, C):
              out.extend(self.interp.get_attr(s2, a[0], v.v, node))
          return out
    if name in ("len", "builtins.len") and len(args) == 1:
      v = self.interp.resolve(st, args[0])
      if isinstance(v, U) and v.key[0] in ("line", "cline", "spelling", "m", "resub", "repl"):
        return [(st, U(("len", v)))]
    if name in ("max", "builtins.max"):
      vals = args
      if len(args) == 1 and not isinstance(args[0], Many):
        try:
          vals = self.interp.expand(st, self.interp.resolve(st, args[0]))
        except Exception:
          vals = args
      vals = [self.interp.resolve(st, a) for a in vals if not isinstance(a, Many)]
      if vals and all(isinstance(v, C) and isinstance(v.v, int) for v in vals) and len(vals) >= len(args):
        return [(st, C(max(v.v for v in vals)))]
      return [(st, U(("max",) + tuple(self.interp.resolve(st, a) for a in args if not isinstance(a, Many))))]
    return TextPlugin.on_call(self, st, f, args, kwargs, node)

  def text_method(self, st, base, name, args, kwargs, node):
    base = self.interp.resolve(st, base)
    args = [self.interp.resolve(st, a) for a in args]
    if base == CONFIG and name == "resolve_for_command" and len(args) > 1 and isinstance(args[1], C):
      opt = str(args[1].v).split(".")[-1]
      return U(("option", opt) + tuple(args[2:]))
    if isinstance(base, U) and name == "join" and len(args) == 1 and isinstance(args[0], Ref) and \
        isinstance(st.heap.get(args[0]), Lst) and not any(isinstance(x, Many) for x in st.heap[args[0]].items):
      out = []
      for x in st.heap[args[0]].items:
        out += [base, self.interp.resolve(st, x)]
      return U(("text",) + tuple(out[1:]))
    if isinstance(base, C) and name == "join" and len(args) == 1 and isinstance(args[0], U) and args[0].key[:2] == ("m", "split"):
      k = args[0].key
      if len(k) == 4:
        return U(("m", "replace", k[2], k[3], base))
    if isinstance(base, U) and base.key[0] in ("spelling", "m", "resub", "text", "repl"):
      if name == "split" and args == [C("\n")]:
        return self.lines(st, base, node)
      if name == "split" and len(args) == 1 and isinstance(args[0], C):
        return U(("m", "split", base, args[0]))
      if name == "count" and args == [C("\n")]:
        return C(self.nlines - 1)
      if name in ("lower", "upper", "strip", "rstrip", "lstrip", "replace", "title", "capitalize", "swapcase",
                  "expandtabs", "casefold", "encode", "decode"):
        return U(("m", name, base) + tuple(args))
    return None

  def on_compare(self, st, op, a, b, node):
    return TextPlugin.on_compare(self, st, op, a, b, node)

  # -- modelled calls
  def on_inline(self, st, info, args, kwargs, node):
    name = info.node.name
    if info is self.comment_lines:
      pn = self.interp.resolve(st, args[0] if args else kwargs.get("node"))
      return [(st, self.interp.alloc(st, self.interp.site(st, node, "clines"), Lst(
          [U(("cline", i)) for i in range(self.nlines)])))]
    if self.tag is not None and info.qual == self.tag.qual:
      return [(st, U(("is-tag", self.interp.resolve(st, args[0]))))]
    if info.klass is not None and info.klass.qual == self.write_at:
      return self.output(st, name, args, kwargs, node)
    if info.klass is not None and self.contract and info.klass.issub(self.layout) and args:
      ref = self.interp.resolve(st, args[0])
      if ref != st.p.d.get("root") and "root" in st.p.d:
        if name == "reflow":
          return self.placed(st, ref, args, kwargs, info, node)
        if name == "write":
          st.p.d["w"] = st.p.d["w"] + (("child", self.shape_of(st, ref)),)
          return [(st, NONE)]
    return TextPlugin.on_inline(self, st, info, args, kwargs, node)

  def output(self, st, name, args, kwargs, node):
    if name == "write_at":
      got = self.interp.bind_args(st, self.model.function(self.write_at + "." + name), args, kwargs, node)
      vals = [self.interp.resolve(st, a) for a in args[1:]]
      if len(vals) != 2 and got is not None:
        ps = self.model.function(self.write_at + "." + name).params
        vals = [self.interp.resolve(st, got[p]) for p in ps[1:3]]
      xy = self.xy(st, vals[0])
      st.p.d["w"] = st.p.d["w"] + (("text", xy, vals[1]),)
      return [(st, NONE)]
    st.p.d["w"] = st.p.d["w"] + ((name,) + tuple(self.xy(st, a) or self.interp.resolve(st, a) for a in args[1:]),)
    return [(st, NONE)]

  def shape_of(self, st, ref):
    _, o = self.inst(st, ref)
    if o is None:
      return None
    pn = self.interp.resolve(st, o.attrs.get("pnode", NONE))
    _, p = self.inst(st, pn)
    if p is None or "$shape" not in p.attrs:
      return None
    return p.attrs["$shape"].v

  def placed(self, st, ref, args, kwargs, info, node):
    got = self.interp.bind_args(st, info, args, kwargs, node)
    if got is None:
      return None
    cur = got[info.params[2]]
    xy = self.xy(st, cur)
    if xy is None:
      raise AnalysisError("a child is placed at %s at %s" % (show(self.interp.resolve(st, cur)),
                                                           self.interp.where(st, node)))
    _, o = self.inst(st, ref)
    sid = self.shape_of(st, ref)
    n = o.attrs.get("$n", C(0)).v + 1
    sh = self.shapes[sid]
    tag = (sid, n)
    if not sh.leaves():
      x, y = xy
    elif sh.kind in ("LPAREN", "RPAREN"):
      x, y = xy[0], U(("bin", "Add", xy[1], C(1)))
    elif sh.kind in WORDS and not sh.kids():
      x, y = xy[0], U(("endcol", C(sid), C(n)))     # no line break in a word
    else:
      x = U(("bin", "Add", xy[0], U(("rows", C(sid), C(n)))))
      y = U(("endcol", C(sid), C(n)))
    at = dict(o.attrs)
    at["$n"] = C(n)
    at["$pos"] = Tup(xy)
    at["$end"] = Tup((x, y))
    at["_position"] = self.new_cursor(st, xy[0], xy[1], ("pos",) + tag)
    at["_colextent"] = U(("ext", C(sid), C(n)))
    at["_reflow_valid"] = U(("valid", C(sid), C(n)))
    st.heap[ref] = Inst(o.klass, at)
    return [(st, self.new_cursor(st, x, y, ("end",) + tag))]


class Bench:
  """Builds the trees and runs one node's methods."""

  def __init__(self, model, shape, **kw):
    self.model, self.shape = model, shape
    self.plugin = LPlugin(model, **kw)
    self.interp = Interp(model, self.plugin)
    self.interp.MERGE_AT = 6
    self.shapes = {}
    self.plugin.shapes = self.shapes
    mod = model.module(FMT)
    st = State()
    st.p = self.plugin.initial()
    fid = self.interp.new_frame(st)
    st.frames[fid] = {"$mod": ModV(mod)}
    st.cur = fid
    self.st = st
    self.node = mod.tree

  def use(self, klass):
    """Interpret with another plugin."""
    self.plugin = klass(self.model, self.plugin.nlines)
    self.plugin.shapes = self.shapes
    merge = self.interp.MERGE_AT
    self.interp = Interp(self.model, self.plugin)
    self.interp.MERGE_AT = merge
    mod = self.model.module(FMT)
    st = State()
    st.p = self.plugin.initial()
    fid = self.interp.new_frame(st)
    st.frames[fid] = {"$mod": ModV(mod)}
    st.cur = fid
    self.st = st

  def place_all(self, st):
    """Every layout node has some place."""
    for ref, o in list(st.heap.items()):
      if isinstance(o, Inst) and isinstance(o.klass, Klass) and o.klass.issub(self.plugin.layout):
        sid = self.plugin.shape_of(st, ref)
        self.set(st, ref, _position=self.plugin.new_cursor(st, U(("row", C(sid))), U(("col", C(sid))), ("at", sid)))

  def pnode(self, st, sh):
    self.shapes[sh.id] = sh
    kids = []
    for x in sh.items:
      if isinstance(x, Shape):
        kids.append(self.pnode(st, x))
      else:
        i = len(kids)
        kids.append(self.interp.alloc(st, ("tok", sh.id, i), Inst(self.model.klass("cmakelang.lex.Token"), {
            "type": E(TTYPE, x), "spelling": sh.spell or U(("spelling", C(sh.id), C(i))),
            "begin": U(("begin", C(sh.id), C(i))), "end": U(("end", C(sh.id), C(i)))})))
    lst = self.interp.alloc(st, ("kids", sh.id), Lst(kids))
    at = {"node_type": E(NTYPE, sh.kind), "children": lst, "parent": NONE, "$shape": C(sh.id),
          "sortable": FALSE, "is_explicit_trailing": FALSE, "is_implicit_trailing": FALSE}
    at.update(sh.attrs)
    return self.interp.alloc(st, ("pnode", sh.id), Inst(self.model.klass(sh.klass), at))

  def call(self, outs, qual, args, kwargs=None):
    """outs: states -> [(state, value)]"""
    info = self.model.function(qual)
    res = []
    for st in outs:
      res.extend(self.interp.inline(st, FnV(info, None), list(args), kwargs or {}, info.node))
    return res

  def method(self, st, ref, name, args):
    rs = self.interp.get_attr(st, ref, name, self.node)
    out = []
    for s, f in rs:
      if isinstance(f, Sig):
        out.append((s, f))
        continue
      info = f.fn.info if isinstance(f, Bound) else None
      if info is None:
        raise AnchorError("%s is no method of %s" % (name, show(ref)))
      out.extend(self.interp.inline(s, f.fn, [f.selfv] + list(args), {}, info.node))
    return out

  def build(self):
    """-> [(state, layout root | Sig)]"""
    st = self.st
    p = self.pnode(st, self.shape)
    out = []
    for s, v in self.call([st], FMT + ".create_box_tree", [p]):
      if isinstance(v, Sig):
        out.append((s, v))
        continue
      for s2, r in self.method(s, v, "lock", [CONFIG]):
        out.append((s2, r if isinstance(r, Sig) else v))
    return self.distinct(out)

  def distinct(self, outs):
    """Trees built alike are followed once, without what was assumed."""
    seen, res = {}, []
    for st, v in outs:
      k = (v.key() if isinstance(v, Sig) else v, frozenset((r, o.key()) for r, o in st.heap.items()))
      if k not in seen:
        seen[k] = st
        res.append((st, v))
      else:
        seen[k].join_facts(st)
    return res

  def context(self, st):
    k = self.model.klass(FMT + ".StackContext")
    return self.interp.alloc(st, ("stackctx",), Inst(k, {
        "config": CONFIG, "node_path": self.interp.alloc(st, ("path",), Lst([])), "first_token": U(("first-token",))}))

  def writer(self, st, off=None):
    f = self.interp.alloc(st, ("outfile",), Inst(self.model.klass(FMT + ".CursorFile"), {
        "_config": CONFIG}))
    return self.interp.alloc(st, ("wctx",), Inst(self.model.klass(FMT + ".WriteContext"), {
        "offswitch_location": off if off is not None else NONE, "outfile": f, "infile": U(("infile",))}))

  def set(self, st, ref, **at):
    o = st.heap[ref]
    d = dict(o.attrs)
    d.update(at)
    st.heap[ref] = Inst(o.klass, d)

  def offtoken(self, st):
    u = U(("off-location",))
    st.dom[u] = ("out", frozenset([NONE]))
    return u

  def adopt(self, st, root):
    """Give a command name the statement it belongs to."""
    p = self.interp.alloc(st, ("stmt-pnode",), Inst(self.model.klass(KLASS["STATEMENT"]), {
        "node_type": E(NTYPE, "STATEMENT"), "cmdspec": U(("cmdspec",)), "parent": NONE, "$shape": C(0),
        "children": self.interp.alloc(st, ("stmt-kids",), Lst([]))}))
    self.set(st, root, _parent=self.interp.alloc(st, ("stmt-layout",), Inst(
        self.model.klass(FMT + ".StatementNode"), {"pnode": p, "_parent": NONE})))

  X0, Y0 = U(("row0",)), U(("col0",))

  def reflow(self, st, root):
    st.p.d["root"] = root
    st.p.d["shape"] = C(self.shape.id)
    self.set(st, root, _wrap=U(("wrap",)), statement_terminal=U(("terminal",)), _reflow_valid=TRUE,
             _position=self.plugin.new_cursor(st, self.X0, self.Y0, "self"))
    cur = self.plugin.new_cursor(st, self.X0, self.Y0, "start")
    return self.method(st, root, "_reflow", [self.context(st), cur, U(("passno",))])

  def write(self, st, root, off=None):
    return self.method(st, root, "write", [CONFIG, self.writer(st, off)])
