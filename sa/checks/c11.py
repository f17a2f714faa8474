"""C11: sorting permutes arguments with their comments.

lock() of positional groups is interpreted with sorted() returning every
permutation (the keys are unknown), for groups of arguments, flags, comments
and pragmas, with equal and different spellings.  The resulting children must
be a permutation in which what follows an argument stays behind it; an order
other than the source's needs enable_sort, autosort and the group's mark."""
from .. import layoutcheck


def run(ctx):
  for text in (
      "children after lock() are a permutation of those before; comments stay behind the argument they follow",
      "another order is only reached with enable_sort and autosort on, in a group marked sortable"):
    ctx.rule(text)
  layoutcheck.analyse(ctx, "C11", ("sort",))
  ctx.expect("orders", 100)
  ctx.expect("sorted orders", 20)
  ctx.assume("sorted() and list.sort() permute")
