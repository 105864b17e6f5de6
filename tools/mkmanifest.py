"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
checks = []
for p in props:
    if p["id"] in CLAIMS:
        tech, level, note = CLAIMS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py %s" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in CLAIMS],
     "notes": "No hooks in /repo: the contracts are attached to the functions' MIR from outside (see DESIGN.md)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
