#!/bin/bash
# Development aid: testseeds.sh OUT id...   applies the named seeded patches together to a scratch copy and runs the stable tests
out=$1; shift
here=$(dirname "$(dirname "$(realpath "$0")")")
w=$(mktemp -d /tmp/ts.XXXX)
cp -a /repo $w/repo
for i in "$@"; do git -C $w/repo apply $here/seeded/$i/patch.diff || echo "NO APPLY $i"; done
sed "s#/repo#$w/repo#g" /opt/vp/test.sh > $w/test.sh
bash $w/test.sh $w/out.json > $w/log 2>&1
python3 - $w/out.json > $out <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ("passed","stable","tests"):
        if k in x: return set(x[k])
    return set(k for k,v in x.items() if v in ("passed","pass",True))
p=passed(b); q=passed(o)
print(len(p),len(q),"missing",sorted(p-q)[:20])
PY
tail -5 $w/log >> $out
rm -rf $w
