"""Writes MANIFEST.json from the plans that exist (harness/plans*.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import plans, plans2, plans3, plans4, plans5
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
TECH = "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real server and every observed reply validated against the specification by TLC"
checks = []
na = []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python harness/run.py %s" % i,
                       "thorough_cmd": "/opt/venv/bin/python harness/run.py %s --tier thorough" % i,
                       "technique": TECH, "level": "model_checking", "level_note": NOTE.get(i, NOTE["*"])})
    else:
        na.append({"property": i, "reason": NOTE.get("na:" + i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the clock and the process are controlled from the harness. Repairs are the fix: commits listed in known-findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
