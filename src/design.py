"""writes DESIGN.md"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "src"))
import notes  # noqa: E402

out = [open(os.path.join(ROOT, "doc/head.md")).read()]
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
claimed = {c.get("property_id") or c.get("property") or c.get("id") for c in man["checks"]}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    if p["id"] not in claimed:
        continue
    t, n = notes.NOTES[p["id"]]
    out.append("**%s — %s.** *Decided by* %s. %s\n" % (p["id"], p["title"], t, n))
out.append("\n## 3. Properties this family cannot decide here\n")
for x in man["not_applicable"]:
    i = x.get("property_id") or x.get("property") or x.get("id")
    out.append("- **%s** (%s): %s" % (i, next(p["title"] for p in props if p["id"] == i), x["reason"]))
out.append("\n## 4. Genuine defects found and repaired\n\nEach is a `fix:` commit in `/repo`, listed in `known-findings.json` (a fixed entry suppresses nothing).\n")
for f in json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"]:
    out.append("- %s `%s` %s: %s" % (f["property"], f["commit"], f["status"], f["entry"].split(f["commit"], 1)[-1].strip()))
out.append("\n## 5. Planted bugs\n\nEach was written from the property's text, builds, passes the 103 tests, and has a demonstration. "
           "Every one listed is reported by the check of its property.\n\n| bug | needs | what breaks |\n|---|---|---|")
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    out.append("| %s (%s) | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
out.append(open(os.path.join(ROOT, "doc/tail.md")).read())
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
