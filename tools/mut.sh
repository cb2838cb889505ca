#!/bin/bash
# mut.sh PROP FILE 'python-expr-old' 'new' : run one check against a scratch copy with a textual change
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/src "$d/src"
python3 - "$d/src/finoptions/$2" "$3" "$4" "${5:-1}" <<'P'
import sys
p,a,b,n=sys.argv[1:5]
s=open(p).read()
if a not in s: print("NOT FOUND",a); sys.exit(3)
parts=s.split(a); n=int(n)
s=a.join(parts[:n])+b+a.join(parts[n:]) if n>0 else s.replace(a,b)
open(p,'w').write(s)
P
FINOPT_REPO=$d timeout 900 python3-vt /verif/symfin/run.py $1 ${TIER:-quick} --only "${ONLY:-}" 2>&1 | cut -c1-300 | head -${LINES_:-6}
rm -rf "$d"
