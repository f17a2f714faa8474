"""C03: bounds and escaping-error analysis of the parser.

In the abstract interpretation of the parser (see C01) every look at or removal
of a token needs the path to have established that the stream is that long
(truth of the stream, a length comparison, an earlier look-ahead); otherwise the
input that ends there is reported.  Every exception that leaves the entry point
must be one which main() of both programs catches by name and turns into a
message and a failing status; that list is read from their handlers."""
from .. import tokstream


def run(ctx):
  for text in (
      "every tokens[i] / tokens.pop(0) is preceded on the path by evidence that the token exists",
      "exceptions escaping from the parser are among those both main() functions handle by name",):
    ctx.rule(text)
  tokstream.check(ctx, "C03")
  for name, least in [('takes', 30), ('peeks', 40), ('contexts', 60)]:
    ctx.expect(name, least)
