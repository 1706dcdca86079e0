#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, SETS, NOTES  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        specs = sorted({SETS[s]["spec"] for s, _ in PLAN[i]["sets"]} | {m["spec"] for m in PLAN[i].get("mc", [])})
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; traces of the real code validated against it (%s)" % ", ".join(specs),
            "level": "model_checking",
            "level_note": NOTES.get(i, NOTES[""]),
        })
    else:
        na.append({"property": i, "reason": "No check yet: the specification for it is being written."})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the driver in harness/ is built together with /repo's working tree through 'go build -overlay' and uses exported API only. VERIF_SEED selects the generated histories."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
