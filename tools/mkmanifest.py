#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from apgsa.about import RULE, NOT_APPLICABLE
from apgsa.rules import RULES

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    if i in RULES:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": "static analysis: whole-program abstract interpretation of the Python source (symbolic dataflow, merged branches)",
            "level": "other",
            "level_note": RULE[i] + " Assumes the models of textX, argparse, cgen, struct and the Python library; bounded in the shape "
                                    "of the input, not in names, texts or numbers.",
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo. Known findings: known_findings.txt."}, f, indent=1)
    f.write("\n")
