"""C01: ownership analysis of the token stream.

Every parser function is interpreted abstractly over a symbolic token stream.
A path records the tokens it takes (directly or through a called parser, whose
summary says what it takes) and the lists of tree nodes they are stored in.  At
every return the tokens owned by the returned tree, read left to right, must be
exactly the tokens taken since the function was entered, in that order: none
dropped, none stored twice, none moved.  Functions reached from the entry point
and every parser in the command tables are analysed, each in every calling
context (kinds of the next token, constant arguments); summaries are iterated
to a fixpoint."""
from .. import tokstream


def run(ctx):
  for text in (
      "at each return: tokens of the returned tree == tokens taken, in order (byte-order mark excepted)",
      "the stream is only handed to code the analysis follows",):
    ctx.rule(text)
  tokstream.check(ctx, "C01")
  for name, least in [('takes', 30), ('stores', 30), ('returns', 30), ('contexts', 60)]:
    ctx.expect(name, least)
