#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props
ps = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i not in props.PROPS:
        na.append({"property": i, "reason": "no check yet"})
        continue
    s = props.PROPS[i]
    has = bool(s["models"]("quick"))
    checks.append({
        "property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --thorough" % i,
        "technique": "TLA+ specification: " + ("TLC explores its state machine and prints its steps as tests; " if has else "") +
                     "TLC checks recorded steps of the real code against it (trace validation)",
        "level": "model_checking",
        "level_note": s.get("note") or
            ("The model is explored exhaustively within the constants listed in the evidence; " if has else "") +
            "the code is judged on the histories run (all those printed by the model or a seeded sample of them, and seeded random ones), "
            "each step against the specification's relation for its operation. Trusts TLC and the driver's reading of public attributes."})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: everything is observed through the public API. Checks run the working tree of /repo directly "
              "(pure Python, no build products). See DESIGN.md; known-findings.txt lists the defects repaired by 'fix:' commits in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
