#!/bin/bash
# mut.sh <patch or -R:commit> <ID>... : run checks against a patched scratch copy of /repo
P=$1; shift
D=$(mktemp -d /tmp/mutXXXX)
cp -a ${BASE:-/repo}/src $D/src
cd $D && git init -q . 2>/dev/null
case $P in
-R:*) git -C /repo show ${P#-R:} -- src | git apply -R - || { echo APPLY-FAILED; rm -rf "$D"; exit 3; } ;;
*) git apply "$P" || { echo APPLY-FAILED; rm -rf "$D"; exit 3; } ;;
esac
cd /verif
for id in "$@"; do VERIF_REPO=$D PYVC_EVIDENCE=$D/ev python3-vt -m pyvc.check $id 2>&1 | cut -c1-${COLS:-260} | tail -${LINES_:-6}; done
rm -rf "$D"
