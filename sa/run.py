"""Check runner:  python3 -m sa.run C12 [--tier quick|thorough]

Exit 0: the rule held on every construct analysed (listed findings excepted);
exit 1: a construct breaks it (VIOLATION line); exit 2: the analysis itself is
broken (an anchor vanished, too few instances, internal error).
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from sa.model import Model, AnchorError  # noqa: E402


class Finding:
  def __init__(self, rule, construct, where, msg):
    self.rule, self.construct, self.where, self.msg = rule, construct, where, msg

  @property
  def key(self):
    return "%s @ %s" % (self.rule, self.construct)

  def as_dict(self):
    return {"rule": self.rule, "construct": self.construct,
            "where": self.where, "message": self.msg}


class Ctx:
  """What a check is given: the source model and somewhere to report."""

  def __init__(self, prop, tier, model):
    self.prop, self.tier, self.model = prop, tier, model
    self.findings = {}
    self.counts = {}
    self.samples = []
    self.rules = []
    self.undecided = []
    self.assumptions = []
    self.broken = []
    self.t0 = time.time()

  def violation(self, rule, construct, where, msg):
    f = Finding(rule, construct, where, msg)
    self.findings.setdefault(f.key, f)

  def count(self, name, n=1):
    self.counts[name] = self.counts.get(name, 0) + n

  def sample(self, s, limit=12):
    if len(self.samples) < limit and s not in self.samples:
      self.samples.append(s)

  def rule(self, text):
    self.rules.append(text)

  def undecide(self, what):
    if what not in self.undecided:
      self.undecided.append(what)

  def assume(self, text):
    self.assumptions.append(text)

  def expect(self, name, minimum):
    """The rule must have had at least this many instances."""
    if self.counts.get(name, 0) < minimum:
      self.broken.append("only %d %s (expected at least %d)" % (
          self.counts.get(name, 0), name, minimum))


def load_known(prop):
  known = {}
  path = os.path.join(HERE, "known_findings.txt")
  if os.path.exists(path):
    for line in open(path, encoding="utf-8"):
      line = line.strip()
      if not line.startswith("KNOWN-FINDING:"):
        continue
      # KNOWN-FINDING: property=C01 key=<rule @ construct> | <what fails>
      body = line[len("KNOWN-FINDING:"):].strip()
      if not body.startswith("property=%s " % prop):
        continue
      rest = body.split("key=", 1)[1]
      key, _, what = rest.partition(" | ")
      known[key.strip()] = what.strip()
  return known


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                  choices=["quick", "thorough"])
  ap.add_argument("--no-evidence", action="store_true")
  args = ap.parse_args(argv)
  sys.setrecursionlimit(20000)
  prop = args.prop
  t0 = time.time()
  try:
    mod = importlib.import_module("sa.checks.%s" % prop.lower())
    model = Model()
    ctx = Ctx(prop, args.tier, model)
    mod.run(ctx)
  except AnchorError as ex:
    print("ANALYSIS-BROKEN property=%s: %s" % (prop, ex))
    return 2
  except Exception:  # an internal error is no verdict
    traceback.print_exc()
    print("ANALYSIS-BROKEN property=%s: internal error" % prop)
    return 2

  known = load_known(prop)
  new, listed = [], []
  for f in sorted(ctx.findings.values(), key=lambda f: f.key):
    (listed if f.key in known else new).append(f)

  evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
  os.makedirs(evdir, exist_ok=True)
  replay = os.path.join(evdir, "%s.replay.json" % prop)
  expl = getattr(mod, "EXPLANATION", None) or mod.__doc__ or ""
  evidence = {
      "property": prop, "tier": args.tier,
      "seed": int(os.environ.get("VERIF_SEED", "1")),
      "level": "other",
      "coverage": dict(
          {"explanation": " ".join(expl.split()),
           "rules_applied": ctx.rules,
           "source_digest": model.digest(),
           "modules_analysed": len(model.modules),
           "functions_in_model": len(model.functions)},
          samples=ctx.samples, undecided=ctx.undecided,
          known_findings=[f.as_dict() for f in listed], **ctx.counts),
      "assumptions": ctx.assumptions,
      "wall_s": round(time.time() - t0, 3),
      "violations": [f.as_dict() for f in new],
  }
  if not args.no_evidence:
    with open(os.path.join(evdir, "%s.json" % prop), "w") as fp:
      json.dump(evidence, fp, indent=1, sort_keys=True)
      fp.write("\n")

  for k in sorted(ctx.counts):
    print("  analysed %s: %d" % (k, ctx.counts[k]))
  for u in ctx.undecided:
    print("  undecided: %s" % u)
  for f in listed:
    print("KNOWN-FINDING: property=%s %s [%s] %s" % (
        prop, f.key, f.where, known[f.key] or f.msg))
  if new:
    with open(replay, "w") as fp:
      json.dump([f.as_dict() for f in new], fp, indent=1)
      fp.write("\n")
    for f in new:
      print("%s: %s: %s: %s" % (f.where, f.rule, f.construct, f.msg))
    print("VIOLATION property=%s replay=%s" % (prop, replay))
    return 1
  if ctx.broken:
    for b in ctx.broken:
      print("ANALYSIS-BROKEN property=%s: %s" % (prop, b))
    return 2
  print("OK property=%s (%.1f s)" % (prop, time.time() - t0))
  return 0


if __name__ == "__main__":
  sys.exit(main())
