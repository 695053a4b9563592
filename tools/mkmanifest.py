#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the drivers that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/drivers/{i.lower()}.py") and i not in notes.get("hold", []):
        checks.append(dict(
            property=i, quick_cmd=f"/opt/venv/bin/python check.py {i} quick",
            thorough_cmd=f"/opt/venv/bin/python check.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=notes["technique"].get(i, notes["technique"]["default"]),
            level="model_checking",
            level_note=notes["level_note"].get(i, notes["level_note"]["default"])))
    else:
        na.append(dict(property=i, reason=notes["na"].get(i, "check not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
         notes="Specifications are TLA+ (spec/), checked with TLC; java/Num.java gives TLC real arithmetic. See DESIGN.md.")
if notes.get("hooks"):
    m["hooks"] = notes["hooks"]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
