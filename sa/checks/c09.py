"""C09: nothing follows a line comment.

For every pair of neighbours in every kind of layout node, on every path
through its _reflow(): if the last thing the first one puts out is a line
comment or a format pragma, the second one is placed at least one row below
where the first one ended.  Rows are linear terms over the unknown numbers of
rows the children take, so that this holds for all of them."""
from .. import layoutcheck


def run(ctx):
  ctx.rule("row of what follows a line comment >= row in which it ends + 1")
  layoutcheck.analyse(ctx, "C09", ("containers",))
  ctx.expect("neighbours", 10000)
  ctx.expect("trees", 1000)
  ctx.assume("the layout of a child is later than its place (established by C08)")
