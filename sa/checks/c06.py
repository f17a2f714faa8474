"""C06: location bookkeeping of the tokenizer, as linear terms.

tokenize() is interpreted on three symbolic token texts, for every combination
of which of them contain line breaks and of a leading byte-order mark.  Each
token must begin where the one before it ended, and end where its own text
takes it: lines advance by the line breaks in the text, columns by its length
or to the length behind its last line break, offsets by its utf-8 length."""
import itertools

from ..absint import Sig, NONE, C, show
from ..lexmodel import Run as LexRun, TOKENIZE, spell, term, linear, describe
from ..model import AnchorError

N = 3


def add(f, g):
  out = dict(f)
  for k, c in g.items():
    out[k] = out.get(k, 0) + c
  return {k: c for k, c in out.items() if c}


def run(ctx):
  info = ctx.model.function(TOKENIZE)
  ctx.rule("token k+1 begins where token k ends; the end is the begin advanced by the token's text")
  paths = 0
  for bom in (False, True):
    for br in itertools.product((False, True), repeat=N):
      lexed = LexRun(ctx.model, bom, br)
      for st, v in lexed.results:
        if isinstance(v, Sig):
          continue
        paths += 1
        judge(ctx, info, lexed, st, v, bom, br)
  ctx.count("paths", paths)
  ctx.expect("paths", 2 ** (N + 1))
  ctx.expect("locations", paths * N)
  ctx.assume("re.Scanner hands the matched texts to the actions in order and without gaps")


def judge(ctx, info, run, st, v, bom, br):
  toks = run.tokens(st, v)
  if any(t is None for t in toks):
    raise AnchorError("tokenize() returns something other than Token objects")
  said = "text %s line breaks in (%s)" % ("with byte-order mark," if bom else "with", ", ".join("yes" if b else "no" for b in br))
  mine = {}
  for t in toks:
    sp = t.get("spelling")
    for i in range(N):
      if sp == spell(i):
        mine[i] = t
  if bom:
    rest = [t for t in toks if t.get("spelling") == C("\ufeff")]
    for t in rest:
      b, e = run.location(st, t.get("begin", NONE)), run.location(st, t.get("end", NONE))
      if b is None or e is None or b[2] != {} or e[2] != {1: 3}:
        ctx.violation("offset", "byte-order mark", info.where,
                      "the byte-order mark does not take the bytes 0 to 3 (begin %s, end %s)" % (
                          b and describe(b[2]), e and describe(e[2])))
  cur = ({1: 1}, {}, {1: 3} if bom else {})
  for i in range(N):
    if i not in mine:
      return      # a lost token: C05
    t = mine[i]
    s = spell(i)
    nxt = (add(cur[0], {term("nl", s): 1}) if br[i] else cur[0],
           {term("tail", s): 1} if br[i] else add(cur[1], {term("len", s): 1}),
           add(cur[2], {term("u8", s): 1}))
    for which, want in (("begin", cur), ("end", nxt)):
      got = run.location(st, t.get(which, NONE))
      ctx.count("locations", 1)
      for k, n in enumerate(("line", "col", "offset")):
        g = got[k] if got is not None else None
        if g is None or add(g, {a: -c for a, c in want[k].items()}):
          ctx.violation(n, "%s of a token" % which, info.where,
                        "%s of the %s of token %d is %s, but it is %s in the text (%s)" % (
                            n, which, i, describe(g), describe(want[k]), said))
    ctx.sample("token %d, %s: end line %s, col %s, offset %s" % (
        i, said, describe(nxt[0]), describe(nxt[1]), describe(nxt[2])))
    cur = nxt
