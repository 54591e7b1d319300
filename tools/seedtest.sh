#!/bin/bash
# seedtest.sh <slot> <id> [notest]: tries one planted bug in private copies of /repo, /opt/vp and /verif (bind-mounted
# over the real ones in a mount namespace, so that nothing real is touched). Prints what happened.
slot=/tmp/seed/$1; id=$2; mode=$3
mkdir -p $slot
if [ ! -d $slot/vp ]; then cp -a /opt/vp $slot/vp; mkdir -p $slot/verif; cp -a /verif/. $slot/verif/; fi
rm -rf $slot/repo; cp -a /repo $slot/repo
# what the previous patch touched has to be built again
if [ -f $slot/touched ]; then (cd $slot/repo && xargs -r touch -c < $slot/touched); fi
grep '^+++ b/' /verif/seeded/$id/patch.diff | cut -c7- > $slot/touched
(cd /verif && tar cf - --exclude=./.build --exclude=./.git --exclude=./evidence .) | tar xf - -C $slot/verif
mkdir -p $slot/verif/evidence
export id mode
exec unshare -Urm bash -c '
mount --bind '$slot'/repo /repo; mount --bind '$slot'/verif /verif; mount --bind '$slot'/vp /opt/vp
s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open(\"$s/meta.json\"))[\"property\"])")
cd /repo
tmp=$(mktemp -d); cp -a $s/. $tmp/; rm -f $tmp/*.diff $tmp/meta.json
if [ "$mode" != checkonly ]; then
bash $tmp/demo.sh >$tmp/clean.log 2>&1; echo "$id demo on clean tree: rc $? (want 0)"
fi
git apply $s/patch.diff || { echo "$id DOES NOT APPLY"; exit 1; }
find . -name "*.rs" -newer /opt/vp/BASELINE.json -path "*src*" >/dev/null
git diff --name-only | xargs touch
if [ "$mode" != checkonly ]; then
bash $tmp/demo.sh >$tmp/bug.log 2>&1; rc=$?; echo "$id demo with the bug: rc $rc (want nonzero): $(tail -1 $tmp/bug.log)"
fi
if [ -z "$mode" ]; then
  bash /opt/vp/build.sh >$tmp/build.log 2>&1 || { echo "$id DOES NOT BUILD"; tail -20 $tmp/build.log; }
  bash /opt/vp/test.sh $tmp/out.json >/dev/null 2>&1
  python3 - $tmp/out.json <<P
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
p=set(o.get("passed",o.get("pass",[]))) if isinstance(o,dict) else set()
m=[x for x in b if x not in p]
print("'$id' tests: %d of %d stable pass" % (len(b)-len(m), len(b)), m[:5])
P
fi
t=$(date +%s)
cd /verif; VERIF_SEED=1 VERIF_TIER=quick ./check $prop >$tmp/check.log 2>&1; rc=$?
echo "$id check $prop: rc $rc ($(( $(date +%s) - t )) s) $(grep -m1 VIOLATION $tmp/check.log) :: $(grep -v "^warning" $tmp/check.log | grep -m1 "^$prop" | cut -c1-200)"
if [ $rc = 2 ]; then tail -15 $tmp/check.log; fi
cp $tmp/check.log /tmp/seed/last_$id.log 2>/dev/null
rm -rf $tmp
'
