#!/usr/bin/env python3-vt
"""MANIFEST.json from vc/props.py (claimed properties) and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if not p:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "check under construction")})
        continue
    checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": p.get("technique", "contract-based deductive verification of the real source (own verifier vc/, z3 and cvc5)"),
                   "level": p.get("level", "proof"), "level_note": p.get("level_note", props.LEVEL_NOTE) })
    if p.get("theorems"):
        checks[-1]["theorems"] = p["theorems"]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na, "notes": props.NOTES}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
