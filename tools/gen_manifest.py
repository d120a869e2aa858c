"""Writes MANIFEST.json from the property modules that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "props", i.lower() + ".py")):
        t, n = NOTES.get(i, ("property-based testing: generated inputs against an independent reference model, with shrinking",
                             "Exploration only: holds on every generated case; trusts the reference model in harness/."))
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check imports flamingpy from /repo's working tree; the C++ matching extension is recompiled from source into a scratch directory. Replay a saved case with ./check.sh --replay FILE."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
