#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the implemented checks (src/checks) and the notes below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from src.driver import registry
from src.notes import NOTES, NA

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
reg = registry()
m = {"version": 1, "setup_cmd": "sh tool/build.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in reg:
        t, n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no sound static rule has been built for it yet")})
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
