#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/notes.json")) if os.path.exists(V + "/tools/notes.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/{i.lower()}.cpp") or os.path.exists(f"{V}/harness/{i.lower()}.py"):
        checks.append(dict(
            property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
            evidence_file=f"evidence/{i}.json", level="exploration",
            technique="property-based testing: " + notes.get(i, ["generated cases against an explicit oracle"])[0],
            level_note=(notes.get(i, ["", "bounded random search; no exhaustiveness claimed"])[1])))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
