#!/usr/bin/env python3
"""Writes known_findings.json. `fixed' entries record repairs and suppress nothing; `known' entries
name the exact case (key) that fails on the pinned tree."""
import json, os
FIXED = [l.split(None, 2) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixed.txt")) if l.strip()]
KNOWN = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known.json")))
f = [{"property": p, "status": "fixed", "what": "fixed: property=%s %s %s" % (p, c, w.strip())} for p, c, w in FIXED]
f += [dict(k, status="known") for k in KNOWN]
json.dump({"findings": f}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
