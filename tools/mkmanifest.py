"""Writes /verif/MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": PLAN[i].get("technique") or "explicit-state model checking of the implementation against a reference model (exhaustive bounded histories)",
                       "level": PLAN[i]["level"], "level_note": str(PLAN[i]["bounds"]) + ". Assumes: " + "; ".join(PLAN[i]["assumptions"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "check.py builds the explorer from /repo's working tree and enumerates bounded histories; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
