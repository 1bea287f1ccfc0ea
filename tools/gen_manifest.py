#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plans in the driver."""
import json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
plans = open(here + "/harness/driver/plans.go").read()
have = set(re.findall(r'^\t"([A-Z]\d\d)":', plans, re.M))
TECH = json.load(open(here + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    t, note = TECH[i]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": t,
        "level": "exploration",
        "level_note": note,
    })
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes the real code through its exported API, its sockets, its files and the race detector. Each check builds its workers and the crawler from /repo's working tree."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
