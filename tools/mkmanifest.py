#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": NA,
     "notes": "Every check: python3 check.py <ID>. The deductive part (engine/, contracts/) runs under python3-vt, the replay and search part (rt/) runs the real code under /opt/venv/bin/python. No hooks are needed in /repo."}
for k, c in sorted(CHECKS.items()):
    if any(n["property"] == k for n in NA): continue
    m["checks"].append({"property": k, "quick_cmd": "python3 check.py %s" % k, "thorough_cmd": "python3 check.py %s --thorough" % k,
                        "technique": c["technique"] or "contract evaluated at run time on generated inputs (bounded stand-in)",
                        "level": c["level"], "level_note": c["note"] or "Bounded: the runtime contract held on the generated inputs."})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
