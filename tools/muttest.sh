#!/bin/bash
# muttest.sh FILE PYEXPR P.. : run checks against a private copy of /repo in which s (the text of FILE) was replaced by PYEXPR
if [ -z "$IN_NS" ]; then
  cp=$(mktemp -d /tmp/mt.XXXXXX); cp -a /repo/. $cp/
  python3 - "$cp/$1" "$2" <<'P' || exit 2
import sys
p=sys.argv[1]; s=open(p).read(); t=eval(sys.argv[2])
assert t!=s, "unchanged"; compile(t,p,"exec"); open(p,"w").write(t)
P
  IN_NS=$cp unshare -mn bash "$0" "$@"; r=$?; rm -rf $cp; exit $r
fi
ip link set lo up; mount --bind $IN_NS /repo; cd /verif
for q in "${@:3}"; do VP_OUT=$IN_NS.v ./check $q > $IN_NS.out 2>&1; r=$?; echo "$1 $q: rc $r: $(grep -v '^case\|^VIOL' $IN_NS.out | head -${TL:-1} | cut -c1-200)"; done
rm -f $IN_NS.out
