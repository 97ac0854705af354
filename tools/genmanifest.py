#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties the checker implements."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([here + "/check.sh", "list"], capture_output=True, text=True, check=True).stdout
have = {e["ID"]: e for e in json.loads(out)}
na = {}
p = here + "/tools/not_applicable.json"
if os.path.exists(p):
    na = json.load(open(p))
checks, nas = [], []
for l in open(here + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in have and i not in na:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": have[i]["Technique"], "level": "other", "level_note": have[i]["Note"]})
    else:
        nas.append({"property": i, "reason": na.get(i, "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": nas,
     "notes": "All checks are one static analyser (/verif/checker) over the type-checked SSA form of /repo; see DESIGN.md."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(nas), "not applicable")
