#!/bin/bash
# seedrun.sh ID [PROPERTY]: apply a planted bug to a scratch copy, run demo (both ways) and the property's check against that copy.
set -u
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$ID
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
T=$(mktemp -d /tmp/seedrun.XXXX); trap 'rm -rf "$T"' EXIT
cp -a "${VP_BASE:-/repo}" "$T/repo"
bld() { # build the mirror the way build.sh does, in the copy
  (cd $T/repo/_build/src && for f in libdieharder dieharder include; do rsync -rc --exclude=Makefile --exclude=Makefile.in --exclude=.deps --exclude=.libs --exclude='*.o' --exclude='*.lo' --exclude='*.la' --exclude=/dieharder/dieharder $T/repo/$f/ $f/; done
   # compile directly: same sources, same flags, into .libs
   cd $T/repo/_build/src/libdieharder && S=$(python3 - <<PY
import re
t=open('Makefile.am').read(); m=re.search(r'^libdieharder_la_SOURCES\s*=\s*((?:[^\n]*\\\\\n)*[^\n]*)',t,re.M); print(' '.join(w for w in m.group(1).replace('\\\\\n',' ').split() if w.endswith('.c')))
PY
) && gcc -std=c99 -Wall -w -O3 -fPIC -DVERSION=3.31.1 -DLITTLE_ENDIAN=1 -I../include -shared -o .libs/libdieharder.so.3.31.1 $S -lgsl -lgslcblas -lm
   cd ../dieharder && S=$(python3 - <<PY
import re
t=open('Makefile.am').read(); m=re.search(r'^dieharder_SOURCES\s*=\s*((?:[^\n]*\\\\\n)*[^\n]*)',t,re.M); print(' '.join(w for w in m.group(1).replace('\\\\\n',' ').split() if w.endswith('.c')))
PY
) && for s in $S; do gcc -w -O3 -DVERSION=3.31.1 -I../include -I. -c -o dieharder-$(basename $s .c).o $s & done && wait && gcc -o .libs/dieharder *.o -L../libdieharder/.libs -ldieharder -lgsl -lgslcblas -lm) || echo BUILD-FAILED
}
bld 2>&1 | tail -3; (cd $T/repo && timeout 300 bash $S/demo.sh >$T/o1 2>&1; echo "demo unchanged: $?")
git -C $T/repo apply $S/patch.diff || echo APPLY-FAILED
bld 2>&1 | tail -3; (cd $T/repo && timeout 300 bash $S/demo.sh >$T/o2 2>&1; echo "demo patched: $?"; tail -2 $T/o2)
for q in $P; do VP_REPO=$T/repo VP_EVID=$T/ev timeout 900 python3 $V/check.py $q quick >$T/o3 2>&1; echo "check $q: $?"; tail -3 $T/o3 | cut -c1-300; done
