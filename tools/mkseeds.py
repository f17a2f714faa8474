#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a spec: mkseeds.py SPEC.py...; each spec file
defines SEEDS = [dict(id=, prop=, edits=[(file, old, new), ...], needs=, breaks=, demo=python text)]."""
import json
import os
import runpy
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0 when the property holds for the demonstrated input, 1 when it does not
export PATH=/opt/venv/bin:$PATH PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONHASHSEED=0
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
cd "$work"
timeout 120 python "$here/demo.py"
"""
HELP = '''import io
import os
import subprocess
import sys


def run(mod, *args, **kw):
  p = subprocess.run([sys.executable, "-m", mod] + list(args), input=kw.get("stdin", "").encode("utf-8"),
                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=kw.get("timeout", 60))
  return p.returncode, p.stdout.decode("utf-8"), p.stderr.decode("utf-8")


def write(path, text):
  with io.open(path, "w", encoding="utf-8", newline="") as f:
    f.write(text)


def read(path):
  with io.open(path, "r", encoding="utf-8", newline="") as f:
    return f.read()


def check(cond, msg):
  if not cond:
    print("BROKEN: " + msg)
    sys.exit(1)


'''
for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)["SEEDS"]:
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        saved = {}
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(os.environ.get('SEEDREPO', '/repo'), f)
                t = open(p, encoding="utf-8", newline="").read()
                saved.setdefault(p, t)
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w", encoding="utf-8", newline="").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", os.environ.get('SEEDREPO', '/repo'), "diff"], stdout=subprocess.PIPE, check=True).stdout
        finally:
            for p, t in saved.items():
                open(p, "w", encoding="utf-8", newline="").write(t)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.py"), "w").write(HELP + s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(s["id"])
