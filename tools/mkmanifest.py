"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif os.path.exists(os.path.join(V, "checks", pid + ".py")) and pid in TECH:
        level, tech, note = TECH[pid]
        checks.append({"property": pid, "quick_cmd": "./run.sh %s quick" % pid,
                       "thorough_cmd": "./run.sh %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": pid, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "mkdir -p evidence replays", "checks": checks, "not_applicable": na,
     "notes": "Checks run the code of /repo's working tree (first on PYTHONPATH) in a private HOME with a private numba cache; no hooks were added to /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
