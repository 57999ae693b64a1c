#!/usr/bin/env python3
"""Regenerates the generated sections of DESIGN.md (properties, findings, fixes, planted bugs)."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
import checks
s = open(V + "/DESIGN.md").read()
head = s[:s.index("## Properties")]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json")); na = {x["property"]: x["reason"] for x in man["not_applicable"]}
o = ["## Properties", ""]
for p in props:
    i = p["id"]
    o.append("* **%s** (%s) — " % (i, p["title"]) + ("%s. %s" % (checks.META[i]["technique"].rstrip("."), checks.META[i]["note"]) if i in checks.TABLE else "not claimed: " + na[i]))
o += ["", "## Known findings (genuine defects left in place)", "",
      "Each is recorded because its repair would change p-values pinned by the stable tests, or lies in a file whose", "name makes it a test file (`*_test.c`), which commits here may not touch.", ""]
for k in json.load(open(V + "/tools/known.json")):
    o.append("* %s `%s`: %s" % (k["property"], k["key"], k["what"]))
o += ["", "## Repaired defects (fix: commits in /repo)", ""]
for l in open(V + "/tools/fixed.txt"):
    if l.strip(): a = l.strip().split(None, 2); o.append("* %s %s %s" % tuple(a))
o += ["", "## Planted bugs and which check catches them", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], res.get(i, "not run")))
o.append("")
o.append(open(V + "/tools/decisions.md").read().rstrip() if os.path.exists(V + "/tools/decisions.md") else "")
open(V + "/DESIGN.md", "w").write(head + "\n".join(o) + "\n")
