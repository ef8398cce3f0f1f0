#!/bin/bash
# seed.sh NAME PROPERTY "needs" "what_it_breaks": the change is in the working tree of /tmp/sw (a worktree of
# /repo) and the demonstration in /tmp/sw.demo/demo_test.go. Confirms it and stores it as /verif/seeded/NAME.
name=$1; prop=$2; needs=$3; what=$4
. /opt/vp/env.sh
d=/verif/seeded/$name; mkdir -p $d
cp /verif/tools/seedlib/common_test.go /verif/tools/seedlib/demo.sh $d/; chmod +x $d/demo.sh
[ -z "$RE" ] && [ -f /tmp/sw.demo/demo_test.go ] && cp /tmp/sw.demo/demo_test.go $d/demo_test.go && gofmt -w $d/demo_test.go
cd /tmp/sw || exit 1
if [ -n "$RE" ]; then git apply $d/patch.diff || exit 1; cp -f $d/demo_test.go /dev/null; else git diff > $d/patch.diff; fi
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
go build ./... || exit 1
bash $d/demo.sh > /tmp/sw.log 2>&1; a=$?
[ -n "$V" ] && tail -15 /tmp/sw.log
git stash -q
bash $d/demo.sh > /tmp/sw.log2 2>&1; b=$?
[ $b != 0 ] && tail -15 /tmp/sw.log2
git stash drop -q
echo "demo with patch: $a (want nonzero), without: $b (want 0)"
grep -h -- "--- FAIL\|panic:\|demo_test.go" /tmp/sw.log | head -5
# stable tests, in /repo
if [ -z "$NOTEST" ]; then
git -C /repo apply $d/patch.diff && bash /opt/vp/test.sh /tmp/sw.json >/dev/null 2>&1
git -C /repo checkout -- .
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/sw.json'))
ok=set(r.get('passed',r.get('pass',[])))
print("stable passing",len(b&ok),"of",len(b),sorted(b-ok)[:5])
P
fi
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
