"""C04: token-kind analysis of what is stored in the tree.

In the abstract interpretation of the parser (see C01) each token carries the
set of kinds still possible after the tests made on the path.  When a token is
stored under a node of type ARGUMENT, FLAG, KEYWORD or FUNNAME no comment,
format pragma or white space may remain possible, a COMMENT node may hold only
comments, an ONOFFSWITCH node only pragmas, and other nodes only white space."""
from .. import tokstream


def run(ctx):
  for text in (
      "kinds possible for a token stored under a node are among those its node type may hold",):
    ctx.rule(text)
  tokstream.check(ctx, "C04")
  for name, least in [('stores', 30), ('contexts', 60)]:
    ctx.expect(name, least)
