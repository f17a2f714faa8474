"""C05: the tokenizer loses nothing and cuts the text where CMake does.

(1) Dataflow: tokenize() is interpreted on a scanner that yields three opaque
pieces; each must become one token with exactly that text and the kind its rule
gives it, in order, and a rest the scanner cannot match must end in an error.
(2) Language: the rule table is evaluated from the source, compiled to an
automaton which keeps the priorities of the matcher, and compared with the
automaton of CMake's grammar on every string and every character before it:
both must cut off a piece of the same length and kind."""
import ast
import re

from ..absint import C, E, Ext, U, Tup, Sig, ExcV, BM, show, NONE
from ..lexmodel import (LexPlugin, Run as LexRun, TOKENIZE, TTYPE, TEXT, REST, SCANNER, SAMPLE, BOM, spell, ttype)
from ..model import AnchorError
from .. import regexauto
from ..regexauto import Program, Unsupported, START

N = 3
# what precedes a delimited argument, and what may follow it
AFTER = r"(?<![^ \t\r\n\f\v(])"
BEFORE = r"(?![^ \t\r\n\f\v)#])"
BEFORE_P = r"(?![^ \t\r\n\f\v)(#])"
REFERENCE = [
    ("QUOTED_LITERAL", AFTER + r'"[^"\\]*(?:\\.[^"\\]*)*"' + BEFORE),
    ("SINGLE", AFTER + r"'[^'\\]*(?:\\.[^'\\]*)*'(?![^ \t\r\n\f\v)])"),
    ("BRACKET_ARGUMENT", AFTER + r"\[(=*)\[.*?\]\1\]"),
    ("WORD", AFTER + r"[A-Za-z_][A-Za-z0-9_]*" + BEFORE_P),
    ("ATWORD", AFTER + r"@[A-Za-z_][A-Za-z0-9_]*@" + BEFORE_P),
    ("ARGUMENT", r'(?:\$\([^$()]+\)|"[^"\\]*(?:\\.[^"\\]*)*"|[^ \t\r\n\f\v()#"\\]|\\[^\r\n])+'),
    ("LEFT_PAREN", r"\("),
    ("RIGHT_PAREN", r"\)"),
    ("NEWLINE", r"\r?\n|\r"),
    ("WHITESPACE", r"[ \t\f\v]+"),
    ("FORMAT_OFF", r"#[ \t\r\f\v]*(?:cmake-format|cmf): off[^\n]*"),
    ("FORMAT_ON", r"#[ \t\r\f\v]*(?:cmake-format|cmf): on[^\n]*"),
    ("BRACKET_COMMENT", r"#\[(=*)\[.*?\]\1\]"),
    ("COMMENT", r"#[^\n]*"),
    ("JUNK", r"."),
]
PLAIN = {"NUMBER", "DEREF", "UNQUOTED_LITERAL"}
WORDS = {"QUOTED_LITERAL": "a quoted argument", "SINGLE": "a single-quoted argument", "JUNK": "no CMake token",
         "BRACKET_ARGUMENT": "a bracket argument", "WORD": "a word", "ATWORD": "an @word@",
         "ARGUMENT": "an unquoted argument", "COMMENT": "a line comment", None: "nothing"}
RULE = {"QUOTED_LITERAL": "quoted", "BRACKET_ARGUMENT": "bracket", "BRACKET_COMMENT": "bracket",
        "COMMENT": "comment", "FORMAT_OFF": "comment", "FORMAT_ON": "comment"}


def agree(have, want, same, before):
  if want in ("JUNK", None):
    return True                  # not CMake: any piece will do
  if not same:
    return False
  if want == "ARGUMENT":
    return have in PLAIN or have == "QUOTED_LITERAL" and before != "separator"
  if want == "SINGLE":
    return have == "QUOTED_LITERAL" or have in PLAIN
  return have == want


def before(c):
  return "separator" if c == START or chr(c) in " \t\r\n\f\v(" else "other"


def flag_value(v):
  if isinstance(v, C) and isinstance(v.v, int):
    return int(v.v)
  if isinstance(v, Ext) and v.name.startswith("re."):
    return int(getattr(re, v.name[3:]))
  if isinstance(v, U) and v.key[0] == "bin" and v.key[1] in ("BitOr", "Add"):
    return flag_value(v.key[2]) | flag_value(v.key[3])
  if isinstance(v, U) and v.key[0] == "attr" and v.key[1] == Ext("re"):
    return int(getattr(re, v.key[2]))
  raise Unsupported("flags %s" % show(v))


def run(ctx):
  info = ctx.model.function(TOKENIZE)
  ctx.rule("each matched piece becomes one token with that text; a rest is an error")
  ctx.rule("the rule table cuts every text where CMake's grammar does")
  table = None
  for bom in (False, True):
    lexed = LexRun(ctx.model, bom, (False, True, False))
    ctx.count("runs")
    table = table or lexed
    lossless(ctx, info, lexed, bom)
    for st, v in [x for br, rem in (((False,), "rest"), ((), "r"), ((False, True), " "))
                  for x in LexRun(ctx.model, bom, br, remainder=rem).results]:
      ctx.count("remainder_paths")
      if isinstance(v, Sig) and isinstance(v.val, ExcV) and str(v.val.cls).endswith(".UserError"):
        continue
      ctx.violation("remainder", "tokenize", info.where,
                    "text which no rule matches ends in %s, not in a user error" % (
                        v.val.cls if isinstance(v, Sig) else "a shorter list of tokens"))
  for st, v in LexRun(ctx.model, False, (), empty=True).results:
    ctx.count("empty_text_paths")
    if isinstance(v, Sig):
      ctx.violation("empty", "tokenize", info.where, "an empty file ends in %s, not in an empty list of tokens" % (
          v.val.cls if isinstance(v.val, ExcV) else v.kind))
    elif lexed.interp.expand(st, v):
      ctx.violation("empty", "tokenize", info.where, "an empty file has tokens")
  ctx.expect("empty_text_paths", 1)
  ctx.expect("tokens", 2 * N)
  ctx.expect("remainder_paths", 2)
  language(ctx, info, table)
  ctx.assume("re.Scanner matches at each position in turn and stops at the first it cannot match")
  ctx.assume("single quotes delimit arguments as the tool has it (CMake knows no such thing)")


def lossless(ctx, info, lexed, bom):
  for x in lexed.plugin.scanned:
    if x != (REST if bom else TEXT):
      ctx.violation("input", "tokenize", info.where, "the scanner is given %s, not the text%s" % (
          show(x), " behind the byte-order mark" if bom else ""))
  if not lexed.plugin.scanned:
    raise AnchorError("tokenize() does not use a re.Scanner")
  good = 0
  for st, v in lexed.results:
    if isinstance(v, Sig):
      ctx.violation("error", "tokenize", info.where,
                    "%s although every piece was matched" % (v.val.cls if isinstance(v.val, ExcV) else v.kind))
      continue
    good += 1
    toks = lexed.tokens(st, v)
    if any(t is None for t in toks):
      raise AnchorError("tokenize() returns something other than Token objects")
    got = [t.get("spelling") for t in toks]
    marks = [t for t in toks if t.get("spelling") == C(BOM)]
    want = [spell(i) for i in range(N)]
    ctx.count("tokens", len(got))
    if [x for x in got if x != C(BOM)] != want:
      ctx.violation("lost", "tokenize", info.where,
                    "pieces 0, 1, 2 become tokens with the texts %s" % ", ".join(show(x) for x in got))
    elif marks and (not bom or got[0] != C(BOM) or len(marks) > 1):
      ctx.violation("mark", "tokenize", info.where, "a byte-order mark token where there is none")
    for t in toks:
      for i in range(N):
        if t.get("spelling") == spell(i) and t.get("type") != ttype(i):
          ctx.violation("kind", "tokenize", info.where, "the kind of a piece is replaced by %s" % show(t.get("type")))
    for t in marks:
      if t.get("type") != E(TTYPE, "BYTEORDER_MARK"):
        ctx.violation("mark", "tokenize", info.where, "the byte-order mark becomes a %s" % show(t.get("type")))
  ctx.count("paths", good)


def kind_of(lexed, st, action):
  """Kind a rule's action gives the matched text, or a complaint."""
  it = lexed.interp
  rs = it.call(st.copy(), action, [SCANNER, SAMPLE], {}, lexed.table_node)
  if len(rs) != 1 or isinstance(rs[0][1], Sig):
    return None, "does not return a pair"
  s, v = rs[0]
  items = it.expand(s, v) if not isinstance(v, C) else []
  items = [it.resolve(s, x) for x in items]
  if len(items) != 2 or not isinstance(items[0], E):
    return None, "does not return a kind and a text"
  if items[1] != SAMPLE:
    return items[0].name, "returns %s in place of the matched text" % show(items[1])
  return items[0].name, None


def language(ctx, info, lexed):
  lexed.table_node = info.node
  if len(lexed.plugin.tables) != 1:
    raise AnchorError("tokenize() builds %d scanners" % len(lexed.plugin.tables))
  rules, flags, st = lexed.plugin.tables[0]
  have, want = Program(), Program()
  depth = 3 if ctx.tier == "thorough" else 2
  try:
    fl = flag_value(lexed.interp.resolve(st, flags))
    for r in rules:
      pair = [lexed.interp.resolve(st, x) for x in lexed.interp.expand(st, lexed.interp.resolve(st, r))]
      if len(pair) != 2 or not isinstance(pair[0], C) or not isinstance(pair[0].v, str):
        raise Unsupported("a rule whose pattern is not constant")
      if pair[1] == NONE:
        ctx.violation("lost", "rule %s" % pair[0].v, info.where, "a rule without an action drops what it matches")
        continue
      kind, wrong = kind_of(lexed, st, pair[1])
      ctx.count("rules")
      if wrong:
        ctx.violation("text", "rule %s" % pair[0].v, info.where, "the action of the rule %s" % wrong)
      have.rule(kind or "?", pair[0].v, fl, depth)
    for name, pat in REFERENCE:
      want.rule(name, pat, re.DOTALL | re.ASCII, depth)
    bad, states, alpha = regexauto.compare(have, want, agree, before)
  except Unsupported as ex:
    ctx.undecide("the rule table: %s" % ex)
    return
  ctx.expect("rules", 10)
  ctx.count("automaton_states", states)
  ctx.count("character_classes", alpha)
  for (h, w, same), (prev, text) in sorted(bad.items(), key=lambda x: (len(x[1][1]), str(x))):
    ctx.violation(RULE.get(w, "cut"), "%s where CMake has %s%s" % (h or "nothing", w, "" if same else ", other length"),
                  info.where, "at the start of %r%s the lexer cuts off a piece of kind %s, CMake %s%s" % (
                      text, "" if prev == START else " (behind %r)" % chr(prev), h or "none",
                      WORDS.get(w, w), "" if same else ", which ends elsewhere"))
  ctx.sample("compared on every string over %d classes of characters, in %d product states" % (alpha, states))
  ctx.assume("bracket levels beyond %d equal signs behave like those up to %d" % (depth, depth))
