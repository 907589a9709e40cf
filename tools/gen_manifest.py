#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property whose checker binary exists."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = open(f"{root}/check.sh").read()
bin_of = {}
for m in re.finditer(r"^\s+([C0-9|]+)\) bin=(\w+)", sh, re.M):
    for i in m.group(1).split("|"):
        bin_of[i] = m.group(2)
NOTES = {}
exec(open(f"{root}/tools/levels.py").read())
checks, na = [], []
for line in open(f"{root}/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    src = f"{root}/harness/src/bin/{bin_of.get(i)}.rs"
    if i in NOTES and os.path.exists(src):
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "technique": NOTES[i][0],
            "level": "exploration",
            "level_note": NOTES[i][1],
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bash harness/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
