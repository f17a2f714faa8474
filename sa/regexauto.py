"""Ordered-choice automata of regular expressions.

A list of rules is compiled to one program whose threads keep the priorities of
Python's backtracking matcher, so that a determinised state is an ordered list
of threads and the rule and the end of the match are decided exactly.  Two such
scanners are compared on every string by exploring their product."""
import re
try:
  import re._parser as sre
  import re._constants as K
except ImportError:                   # before python 3.11
  import sre_parse as sre
  import sre_constants as K

START, END = -1, -2
# characters that decide membership in every set expressible by ranges within
# ASCII and by the white space categories
REPS = list(range(0, 0x180)) + [0x1680, 0x2000, 0x2009, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0x30a2,
                                0xfeff, 0xfffd, 0x1f600]


class Unsupported(Exception):
  pass


def category(cat, ascii_):
  name = str(cat).lower()
  base = {"space": r"\s", "digit": r"\d", "word": r"\w"}
  for k, v in base.items():
    if name.endswith("_" + k):
      rx = re.compile(v, re.ASCII if ascii_ else 0)
      neg = "_not_" in name
      return frozenset(c for c in REPS if bool(rx.match(chr(c))) != neg)
  raise Unsupported(name)


ALL = frozenset(REPS)


class Program:
  """Threads: ("char", set, next) ("split", nexts) ("look", dir, negated, set,
  next) ("match", rule)."""

  def __init__(self):
    self.ins = []
    self.starts = []
    self.names = []

  def emit(self, *i):
    self.ins.append(i)
    return len(self.ins) - 1

  def rule(self, name, pattern, flags, depth):
    try:
      tree = sre.parse(pattern, flags)
    except re.error as ex:
      raise Unsupported("no regular expression: %s" % ex)
    fl = tree.state.flags if hasattr(tree, "state") else tree.pattern.flags
    if fl & (re.IGNORECASE | re.MULTILINE | re.VERBOSE & 0):
      raise Unsupported("flags")
    self.flags = fl
    r = len(self.names)
    self.names.append(name)
    for items in self.instances(list(tree), depth):
      end = self.emit("match", r)
      self.starts.append(self.seq(items, end))

  # -- back references
  def instances(self, items, depth):
    """The sequence for every length of the text a back reference repeats."""
    refs = set()
    self.find(items, refs)
    if not refs:
      yield items
      return
    if len(refs) > 1:
      raise Unsupported("several back references")
    g = refs.pop()
    for k, (op, av) in enumerate(items):
      if op is K.SUBPATTERN and av[0] == g:
        body = list(av[3])
        nxt = items[k + 1] if k + 1 < len(items) else None
        if len(body) != 1 or body[0][0] is not K.MAX_REPEAT:
          raise Unsupported("back reference to a group which is no repetition")
        lo, hi, rep = body[0][1]
        rep = list(rep)
        if len(rep) != 1 or rep[0][0] is not K.LITERAL or nxt is None or \
            nxt[0] is not K.LITERAL or nxt[1] == rep[0][1]:
          raise Unsupported("back reference to a group whose length the text does not determine")
        top = depth if hi is K.MAXREPEAT else min(hi, depth)
        for n in range(lo, top + 1):
          yield self.subst(items, g, [rep[0]] * n)
        return
    raise Unsupported("back reference to a nested group")

  def find(self, items, refs):
    for op, av in items:
      if op is K.GROUPREF:
        refs.add(av)
      elif op is K.SUBPATTERN:
        self.find(list(av[3]), refs)
      elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
        self.find(list(av[2]), refs)
      elif op is K.BRANCH:
        for b in av[1]:
          self.find(list(b), refs)
      elif op in (K.ASSERT, K.ASSERT_NOT):
        self.find(list(av[1]), refs)

  def subst(self, items, g, lits):
    out = []
    for op, av in items:
      if op is K.GROUPREF and av == g or op is K.SUBPATTERN and av[0] == g:
        out.extend(lits)
      elif op is K.SUBPATTERN:
        out.append((op, (av[0], av[1], av[2], self.subst(list(av[3]), g, lits))))
      elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
        out.append((op, (av[0], av[1], self.subst(list(av[2]), g, lits))))
      elif op is K.BRANCH:
        out.append((op, (av[0], [self.subst(list(b), g, lits) for b in av[1]])))
      elif op in (K.ASSERT, K.ASSERT_NOT):
        out.append((op, (av[0], self.subst(list(av[1]), g, lits))))
      else:
        out.append((op, av))
    return out

  # -- compilation, from the end
  def charset(self, op, av):
    ascii_ = bool(self.flags & re.ASCII)
    if op is K.LITERAL:
      return frozenset([av]) & ALL if av in ALL else self.outside(av)
    if op is K.NOT_LITERAL:
      return ALL - self.charset(K.LITERAL, av)
    if op is K.ANY:
      return ALL if self.flags & re.DOTALL else ALL - {10}
    if op is K.IN:
      out, neg = set(), False
      for o, a in av:
        if o is K.NEGATE:
          neg = True
        elif o is K.LITERAL:
          out |= self.charset(o, a)
        elif o is K.RANGE:
          if a[1] > 0x17f and not (a[0] <= 0x180 and a[1] >= 0x10ffff):
            raise Unsupported("range of characters beyond latin")
          out |= {c for c in REPS if a[0] <= c <= a[1]}
        elif o is K.CATEGORY:
          out |= category(a, ascii_)
        else:
          raise Unsupported(str(o))
      return frozenset(ALL - out) if neg else frozenset(out)
    return None

  def outside(self, c):
    raise Unsupported("character U+%04X" % c)

  def seq(self, items, nxt):
    for op, av in reversed(list(items)):
      nxt = self.item(op, av, nxt)
    return nxt

  def item(self, op, av, nxt):
    cs = self.charset(op, av)
    if cs is not None:
      return self.emit("char", cs, nxt)
    if op is K.SUBPATTERN:
      if av[1] or av[2]:
        raise Unsupported("flags within a pattern")
      return self.seq(av[3], nxt)
    if op is K.BRANCH:
      return self.emit("split", tuple(self.seq(b, nxt) for b in av[1]))
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
      lo, hi, body = av
      body = list(body)
      greedy = op is K.MAX_REPEAT
      if hi is K.MAXREPEAT:
        loop = self.emit("split", ())
        b = self.seq(body, loop)
        self.ins[loop] = ("split", (b, nxt) if greedy else (nxt, b))
        nxt = loop
      else:
        if hi > 40:
          raise Unsupported("long repetition")
        end = nxt
        for _ in range(hi - lo):
          b = self.seq(body, nxt)
          nxt = self.emit("split", (b, end) if greedy else (end, b))
      for _ in range(lo):
        nxt = self.seq(body, nxt)
      return nxt
    if op in (K.ASSERT, K.ASSERT_NOT):
      d, body = av
      body = list(body)
      neg = op is K.ASSERT_NOT
      if len(body) == 1:
        cs = self.charset(*body[0])
        if cs is not None:
          return self.emit("look", d, neg, cs, nxt)
        if body[0][0] is K.AT and body[0][1] is K.AT_END_STRING and d == 1:
          return self.emit("look", 1, not neg, ALL, nxt)
        if body[0][0] is K.BRANCH:
          alts = [list(b) for b in body[0][1][1]]
          if all(len(b) == 1 for b in alts):
            if neg:
              for b in alts:
                nxt = self.item(K.ASSERT_NOT, (d, b), nxt)
              return nxt
            return self.emit("split", tuple(self.item(K.ASSERT, (d, b), nxt) for b in alts))
      raise Unsupported("look around of more than one character")
    if op is K.AT:
      if av is K.AT_END_STRING:
        return self.emit("look", 1, True, ALL, nxt)
      if av is K.AT_BEGINNING_STRING:
        return self.emit("look", -1, True, ALL, nxt)
      if av is K.AT_END:
        return self.emit("split", (self.emit("look", 1, True, ALL, nxt),))
    raise Unsupported(str(op))

  # -- running
  def closure(self, threads, prev, nxt):
    """(threads that want a character, rule matched here or None)."""
    out, seen = [], set()
    found = None
    stack = list(reversed(threads))
    while stack:
      pc = stack.pop()
      if pc in seen:
        continue
      seen.add(pc)
      i = self.ins[pc]
      if i[0] == "char":
        out.append(pc)
      elif i[0] == "split":
        stack.extend(reversed(i[1]))
      elif i[0] == "look":
        c = nxt if i[1] == 1 else prev
        if (c >= 0 and c in i[3]) != i[2]:
          stack.append(i[4])
      else:
        found = i[1]
        break          # everything below has less priority
    return out, found

  def sets(self):
    return [i[1] for i in self.ins if i[0] == "char"] + [i[3] for i in self.ins if i[0] == "look"]


def classes(*programs):
  """One representative per class of characters no program tells apart."""
  sets = []
  for p in programs:
    for s in p.sets():
      if s not in sets:
        sets.append(s)
  groups = {}
  for c in REPS:
    groups.setdefault(tuple(c in s for s in sets), []).append(c)
  out = []
  for g in groups.values():
    nice = [c for c in g if 97 <= c <= 122] or [c for c in g if 33 <= c < 127] or g
    out.append(nice[0])
  return out


def compare(one, two, agree, kind, limit=400000):
  """Explore both scanners on every string.  agree(rule1, rule2, same length,
  kind(character before)) says whether an outcome is fine; a shortest string is
  kept for each other outcome.  Rules are names, None if nothing matches."""
  alpha = classes(one, two)
  steps = 0
  bad = {}
  seen = {}
  todo = []
  for prev in [START] + alpha:
    st = (tuple(one.starts), tuple(two.starts), prev, None, None, True, kind(prev), False)
    if st not in seen:
      seen[st] = None
      todo.append(st)
  while todo:
    nxt_todo = []
    for st in todo:
      a, b, prev, ra, rb, same, p0, begun = st
      for c in alpha + [END]:
        steps += 1
        if steps > limit:
          raise Unsupported("too many states")
        ta, fa = one.closure(a, prev, c)
        tb, fb = two.closure(b, prev, c)
        na, nb, ns = ra, rb, same
        if not begun:
          fa = fb = None        # an empty match is none
        if fa is not None and fb is not None:
          na, nb, ns = fa, fb, True
        elif fa is not None:
          na, ns = fa, False
        elif fb is not None:
          nb, ns = fb, False
        xa = tuple(one.ins[pc][2] for pc in ta if c >= 0 and c in one.ins[pc][1])
        xb = tuple(two.ins[pc][2] for pc in tb if c >= 0 and c in two.ins[pc][1])
        if c == END or not xa and not xb:
          if c == END and not begun:
            continue
          names = (one.names[na] if na is not None else None, two.names[nb] if nb is not None else None)
          if not agree(names[0], names[1], ns, p0):
            k = names + (ns,)
            if k not in bad:
              s, w = st, [] if c == END else [c]
              while seen[s] is not None:
                s, ch = seen[s]
                w.append(ch)
              bad[k] = (s[2], "".join(chr(x) for x in reversed(w)))
          continue
        # shared prefixes of duplicate threads
        n = (tuple(dict.fromkeys(xa)), tuple(dict.fromkeys(xb)), c, na, nb, ns, p0, True)
        if n not in seen:
          seen[n] = (st, c)
          nxt_todo.append(n)
    todo = nxt_todo
  return bad, len(seen), len(alpha)
