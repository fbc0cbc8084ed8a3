#!/bin/bash
# q.sh FILE OLD NEW ID... : checks against a scratch copy of /repo/src with one replacement
F=$1; O=$2; N=$3; shift 3
D=$(mktemp -d /tmp/mutXXXX)
cp -a ${BASE:-/repo}/src $D/src
python3 - "$D/src/fairseq2/$F" "$O" "$N" <<'P' || { rm -rf "$D"; exit 3; }
import sys
p, o, n = sys.argv[1:]
o, n = o.encode().decode("unicode_escape"), n.encode().decode("unicode_escape")
s = open(p).read()
if s.count(o) < 1:
    print("NOT FOUND"); sys.exit(1)
open(p, "w").write(s.replace(o, n, 1))
P
cd /verif
for id in "$@"; do VERIF_REPO=$D PYVC_EVIDENCE=$D/ev python3-vt -m pyvc.check $id 2>&1 | cut -c1-${COLS:-220} | tail -${LINES_:-4}; done
rm -rf "$D"
