#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the table of built checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {"C90": "Calibration is a statement about a probability measure over infinite streams; exhaustive enumeration of bounded executions cannot decide it (only sampling or a proof could)."}
chk, na = [], []
for p in props:
    i = p["id"]
    if i in checks.TABLE:
        m = checks.META[i]
        chk.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                    "evidence_file": "evidence/%s.json" % i, "technique": m["technique"], "level": m.get("level", "model_checking"), "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks drive public entry points and the built program only", "source_commits": []},
           "checks": chk, "not_applicable": na,
           "notes": "Everything is rebuilt from /repo's working tree by lib/vp.py (gcc, -lgsl); see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
