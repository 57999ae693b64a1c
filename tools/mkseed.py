#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds seeded/<id>/ from a spec file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO and FILES={name:text}."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(ns):
    d = os.path.join(V, "seeded", ns["ID"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", t + "/r"])
        for f, a, b in ns["EDITS"]:
            p = os.path.join(t, "r", f); s = open(p, encoding="latin-1").read()
            assert s.count(a) == 1, (ns["ID"], f, s.count(a))
            open(p, "w", encoding="latin-1").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"])
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = the repository, after the build
set -u
H=$(cd "$(dirname "$0")" && pwd)
L=$PWD/_build/src/libdieharder/.libs; export LD_LIBRARY_PATH=$L
DH=$PWD/_build/src/dieharder/.libs/dieharder
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cc_demo() { # the library's global variables live in the front end: link its objects, main renamed
  mkdir -p "$T/fe" && cp _build/src/dieharder/*.o "$T/fe/" && for o in "$T"/fe/*.o; do objcopy --redefine-sym main=dieharder_main "$o"; done
  gcc -std=gnu11 -w -DLITTLE_ENDIAN=1 -Iinclude -Idieharder -o "$T/demo" "$H/$1" "$T"/fe/*.o -L"$L" -ldieharder -lgsl -lgslcblas -lm || exit 3; }
""" + ns["DEMO"].strip() + "\n")
    os.chmod(d + "/demo.sh", 0o755)
    for n, x in ns.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(x)
    if "@EXP@" in ns["DEMO"]:      # record the expected output from the unchanged, built tree
        p = d + "/demo.sh"; o = subprocess.run(["bash", p], cwd=os.environ.get("VP_BASE", "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
        x = open(p).read().replace("@EXP@", " ".join(o.split())); open(p, "w").write(x); print(ns["ID"], "expects", o.strip()[-200:])
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
if __name__ == "__main__":
    for f in sys.argv[1:]:
        ns = {'HERE': os.path.dirname(os.path.abspath(f))}; exec(open(f).read(), ns); mk(ns)
