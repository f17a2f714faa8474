"""C08: argument text reaches the output unaltered.

The text a leaf writes is a symbolic term over its token's spelling: only line
endings may be replaced, and for command names, keywords and flags the case.
The same term is what the layout measured.  The places of all leaves are
compared as linear terms: each child starts where its sibling ends or later,
with a blank between them except next to parentheses; the end that is reported
is that of the last child.  write_at() puts line breaks and blanks, and nothing
else, between the places it is given."""
import ast

from .. import layoutcheck
from ..absint import C, Ref, Dct, show
from ..cli import run_entry
from ..model import AnchorError
from ..textdom import TextPlugin
from .c19 import literal

FUNS = "cmakelang.parse.funs"


class Eval(TextPlugin):
  CONCRETE = True


def same(name, spelling):
  return isinstance(spelling, str) and isinstance(name, str) and name.lower() == spelling.lower()


def spellings(ctx):
  """The built-in canonical spellings differ from the command name in case only."""
  model = ctx.model
  for mname in (FUNS + ".standard_builtins", FUNS + ".standard_modules"):
    mod = model.modules.get(mname)
    if mod is None:
      raise AnchorError("no module " + mname)
    node = next((s.value for s in mod.tree.body if isinstance(s, ast.Assign) and
                 any(isinstance(t, ast.Name) and t.id == "FUNSPECS" for t in s.targets)), None)
    if node is None:
      raise AnchorError("%s has no FUNSPECS" % mname)
    try:
      table = literal(node, mod, model, [])
    except ValueError as ex:
      raise AnchorError("FUNSPECS of %s is not a literal table: %s" % (mname, ex))
    for name, spec in sorted(table.items()):
      if not isinstance(spec, dict) or "spelling" not in spec:
        continue
      ctx.count("canonical spellings")
      if spec["spelling"] is not None and not same(name, spec["spelling"]):
        ctx.violation("canonical-spelling", "%s %s" % (mname, name), "%s:%d" % (mod.relpath, node.lineno),
                      "the command %r is written as %r" % (name, spec["spelling"]))
  qual = FUNS + ".standard_funs.get_default_config"
  info = model.function(qual)
  p = Eval(inline_mods=[FUNS + ".standard_funs"])
  it, res = run_entry(model, p, qual, lambda st: ([], {}))
  for st, v in res:
    d = st.heap.get(v) if isinstance(v, Ref) else None
    if not isinstance(d, Dct):
      raise AnchorError("the result of get_default_config() is not a known dictionary: %s" % show(v))
    for k, e in d.items.items():
      e = st.heap.get(e) if isinstance(e, Ref) else None
      sp = e.items.get(C("spelling"), C(None)) if isinstance(e, Dct) else None
      if sp is None or not isinstance(k, C) or not isinstance(sp, C):
        raise AnchorError("get_default_config() has an entry which is not constant: %s" % show(k))
      ctx.count("canonical spellings")
      if sp.v is not None and not same(k.v, sp.v):
        ctx.violation("canonical-spelling", "%s %s" % (qual, k.v), info.where,
                      "the command %r is written as %r" % (k.v, sp.v))


def run(ctx):
  for text in (
      "text of an argument == spelling up to line endings; of command names, keywords and flags also up to case",
      "place of a child >= end of the one before it (+ 1 column, except next to parentheses)",
      "measured text == written text; CursorFile.write_at() adds line breaks and blanks only"):
    ctx.rule(text)
  ctx.rule("built-in canonical spelling of a command == its name, ignoring case")
  spellings(ctx)
  ctx.expect("canonical spellings", 25)
  layoutcheck.analyse(ctx, "C08", ("containers", "leaves"))
  ctx.expect("neighbours", 10000)
  ctx.expect("leaf layouts", 40)
  ctx.expect("file writes", 30)
  ctx.expect("reflows", 60)
  ctx.assume("lower() and upper() keep the length of command names, keywords and flags")
