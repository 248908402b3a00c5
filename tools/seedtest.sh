#!/bin/bash
# seedtest.sh ID [tests|check|demo|all] : try a planted bug in a private copy of /repo, mounted over /repo in a namespace of its own
id=$1; what=${2:-all}; shift 2; d=/verif/seeded/$id
if [ -z "$IN_NS" ]; then
  cp=$(mktemp -d /tmp/sd.XXXXXX); cp -a /repo/. $cp/
  git -C $cp apply $d/patch.diff || { echo "$id: does not apply"; rm -rf $cp; exit 2; }
  IN_NS=$cp unshare -mn bash "$0" "$id" "$what" "$@"; r=$?
  rm -rf $cp; exit $r
fi
ip link set lo up
cp -a /verif/seeded/$id $IN_NS.demo; 
case $what in demo|all)
  (cd /repo && timeout 300 bash $IN_NS.demo/demo.sh >$IN_NS.out 2>&1); a=$?
  mount --bind $IN_NS /repo
  (cd /repo && timeout 300 bash $IN_NS.demo/demo.sh >$IN_NS.out 2>&1); b=$?
  [ $a = 0 ] && [ $b != 0 ] && echo "$id: demo ok ($b)" || { echo "$id: DEMO BAD clean=$a bug=$b"; tail -5 $IN_NS.out; };;
*) mount --bind $IN_NS /repo;; esac
cd /verif
case $what in check|all) p=${1:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  for q in $p; do
  VP_OUT=$IN_NS.v ./check $q > $IN_NS.out 2>&1; r=$?
  [ $r = 1 ] && echo "$id: caught by $q: $(grep -v '^case\|^VIOL' $IN_NS.out | tail -1 | cut -c1-200)" || { echo "$id: MISSED by $q (rc $r)"; tail -${TL:-3} $IN_NS.out; }; done;; esac
case $what in tests|all)
  bash /opt/vp/test.sh $IN_NS.json > $IN_NS.out 2>&1
  python3 - $IN_NS.json $id <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open(sys.argv[1]))
m=sorted(b-set(t['passed']));print(sys.argv[2]+': tests', 'ok' if not m else 'FAIL %d %s'%(len(m),m[:4]))
P
;; esac
rm -rf $IN_NS.demo $IN_NS.out $IN_NS.json
