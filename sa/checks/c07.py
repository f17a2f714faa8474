"""C07: what was laid out is written.

The formatter's nodes are interpreted abstractly, one kind at a time, over all
parse trees of that kind with up to two (for some kinds three) children of every
kind the parser builds.  On every path through building, locking, layout and
writing: nothing is raised, every child is placed, and write() passes to every
child once, in order.  Leaves write their own text once, where they were
placed; the lines of a comment all go to the markup reader or to the output."""
from .. import layoutcheck


def run(ctx):
  for text in (
      "no path of create_box_tree(), lock(), _reflow() or write() over a tree the parser builds raises",
      "each child is placed, and written once and in order; leaves write their own text once",
      "every line of a comment reaches the markup reader, or the output, once and in order"):
    ctx.rule(text)
  layoutcheck.analyse(ctx, "C07", ("containers", "leaves", "comments"))
  ctx.expect("trees", 1000)
  ctx.expect("layouts", 5000)
  ctx.expect("writes", 2000)
  ctx.expect("leaf writes", 100)
  ctx.expect("comments", 10)
  ctx.assume("the parser builds trees of the shapes listed in sa/layoutcheck.py")
