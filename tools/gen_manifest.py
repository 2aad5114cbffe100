#!/usr/bin/env python3
"""Write MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_CLAIMED
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        specs = sorted({s["spec"] for s in c.get("mc", []) + c.get("run", [])})
        drv = sorted({s["driver"] for s in c.get("run", [])})
        checks.append({
            "property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": "TLA+ specification (%s) checked with TLC; TLC-generated behaviours replayed on the real code by driver %s and every observation compared" % (", ".join(specs), ", ".join(drv)),
            "level": c.get("level", "model_checking"), "level_note": c.get("note", "exhaustive for the specification within the stated constants; the code is bound to it by replaying sampled behaviours of a larger instance")})
    else:
        na.append({"property": i, "reason": NOT_CLAIMED.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "none: no hooks were added to /repo; drivers are compiled in through 'go build -overlay'", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
