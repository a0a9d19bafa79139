#!/usr/bin/env python3
"""Rewrite properties.jsonl and MANIFEST.json from tools/properties_src.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from properties_src import P
from manifest_src import TECH, NOT_APPLICABLE, NOTES
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": NOT_APPLICABLE, "notes": NOTES}
na = {x["property"] for x in NOT_APPLICABLE}
for x in P:
    if x["id"] in na:
        continue
    t, note = TECH[x["id"]]
    m["checks"].append({"property": x["id"], "quick_cmd": "python3 run.py %s --tier quick" % x["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % x["id"],
                        "evidence_file": "evidence/%s.json" % x["id"], "technique": t, "level": "model_checking", "level_note": note})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
