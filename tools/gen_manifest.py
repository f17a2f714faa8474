#!/usr/bin/env python3
"""Write MANIFEST.json from the table below; properties without an entry are
listed as not applicable with their reason."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = "abstract interpretation"
CHECKS = {
    "C01": (ABS + " of the parser over a symbolic token stream (ownership typestate)", ""),
    "C02": (ABS + " of the parser over a symbolic token stream (progress of every loop)", ""),
    "C03": (ABS + " of the parser over a symbolic token stream (bounds and escaping exceptions)", ""),
    "C04": (ABS + " of the parser over a symbolic token stream (token kinds stored per node)", ""),
    "C05": ("finite automata built from the scanner's regular expressions plus dataflow of the tokenizer", ""),
    "C06": ("symbolic dataflow of the location bookkeeping", ""),
    "C07": (ABS + " of layout node classes (every child positioned and written once)", ""),
    "C08": ("provenance dataflow of argument text through the layout nodes", ""),
    "C09": (ABS + " of the reflow methods (row of the child after a line comment)", ""),
    "C10": (ABS + " of the writer's off/on switching", ""),
    "C11": ("dataflow and control dependence of the sorting code", ""),
    "C12": (ABS + " of the per-file driver (file typestate, all branches and failures)", ""),
    "C13": (ABS + " of both drivers (failure-to-status dataflow over all loop rounds)", ""),
    "C14": ("constant evaluation of option tables against the code that consumes them", ""),
    "C15": ("provenance dataflow of option values through drivers and configuration classes", ""),
    "C16": (ABS + " of config loading (exception conversion, include queue, merge effects)", ""),
    "C17": ("interprocedural effect analysis (who mutates shared objects) and hash-order lint", ""),
    "C18": ("typed query over every text-file open call", ""),
    "C19": ("constant evaluation of the command tables", ""),
    "C20": ("constant evaluation of lint ids and message arguments at every report site", ""),
    "C21": (ABS + " of lint suppression (typestate of the report and scope code)", ""),
    "C22": ("provenance dataflow of command database and configuration into the parser", ""),
    "C23": (ABS + " of the markup reader and writer on symbolic lines, languages of the patterns", ""),
    "C24": ("taint analysis of token text to HTML sinks", ""),
    "C25": (ABS + " of the configuration views over every kind of option", ""),
    "C26": ("constant evaluation of flags and destinations", ""),
}
NA = {
    "C27": "quantifies over the whole layout search on run-time text widths; no sound static argument in reach decides equality of two pipeline runs",
    "C28": "needs CMake's evaluation semantics of the full output text; its structural parts are claimed separately as C01, C07, C08, C09, C10",
    "C29": "a statement about run-time line widths explored by the layout search; not visible in the shape of the code",
}
PENDING = "check not finished yet"

checks, na = [], []
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for i in ids:
    mod = os.path.join(HERE, "sa", "checks", i.lower() + ".py")
    if i in CHECKS and os.path.exists(mod):
        tech, note = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 -m sa.run %s --tier quick" % i,
            "thorough_cmd": "python3 -m sa.run %s --tier thorough" % i,
            "technique": "static analysis: " + tech,
            "level": "other",
            "level_note": note or "decides the structural rules printed in the evidence on every path of the "
                          "current source; see DESIGN.md for what is modelled and assumed",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa",
           "checks": checks, "not_applicable": na,
           "notes": "Pure source analysis: nothing of /repo is imported or executed by any check."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
