#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the checks present and bin/levels.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
lv = json.load(open(f"{V}/bin/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py") and i in lv:
        checks.append(dict(property=i, quick_cmd=f"python3 checks/{i}.py", thorough_cmd=f"VERIF_TIER=thorough python3 checks/{i}.py",
                           evidence_file=f"evidence/{i}.json", technique=lv[i]["technique"], level="model_checking", level_note=lv[i]["note"]))
    else:
        na.append(dict(property=i, reason=lv.get(i, {}).get("na", "check not built yet")))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks compile /repo's sources directly, with stand-ins for the absent external libraries in /verif/stubs.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
