#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from table import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 tools/check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % i,
            "technique": "TLA+ specification checked with TLC; TLC trace validation of recorded runs of the real code (%s)"
                         % ", ".join(u["spec"] for u in c["units"]),
            "level": "model_checking",
            "level_note": c.get("note", "The TLA+ model is checked exhaustively at small scope; every recorded call of the real code, on TLC-enumerated and seeded random inputs, must be a step the specification allows. Trusts TLC, the recorder and the compiler; covers the recorded inputs only.")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check claimed yet")})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Language: TLA+, checked with TLC. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
