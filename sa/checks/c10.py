"""C10: text with formatting off is copied.

write_tree() is interpreted over whole trees with format pragmas between
statements, between arguments and in groups of all kinds.  The texts written
and copied must be, in order: the leaves outside of regions, and for each
region the bytes of the tokenized text from the end of the first off pragma to
the beginning of the on pragma (or the end of the file), once."""
from .. import layoutcheck


def run(ctx):
  for text in (
      "output == leaves with formatting on, and bytes [end of off, begin of on) of the tokenized text, in order",
      "leaves write nothing while formatting is off; containers pass on to all children"):
    ctx.rule(text)
  layoutcheck.analyse(ctx, "C10", ("containers", "leaves", "regions"))
  ctx.expect("regions", 100)
  ctx.expect("writes", 2000)
  ctx.expect("formatted texts", 1)
  ctx.assume("offsets of tokens are utf-8 offsets in the tokenized text (C06)")
