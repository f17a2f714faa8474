"""C02: progress analysis of every loop of the parser.

In the abstract interpretation of the parser (see C01) every round of a while
loop that comes back to the loop head has either used up at least one token, or
changed a bounded counter or state variable; a cycle of rounds in which neither
happens is reported with the path through it.  A callee that may take nothing is
re-analysed in the caller's state before a report is made."""
from .. import tokstream


def run(ctx):
  for text in (
      "every cycle of rounds of a while loop over the stream uses up a token or leaves the loop",):
    ctx.rule(text)
  tokstream.check(ctx, "C02")
  for name, least in [('loops', 20), ('contexts', 60)]:
    ctx.expect(name, least)
