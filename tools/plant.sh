#!/bin/bash
# plant.sh ID...: in a scratch copy of /repo bound over /repo, checks that seeded/ID builds, keeps the stable tests
# passing, and that its demo tells the two trees apart.
cd /verif
for id in "$@"; do
  W=$(mktemp -d /tmp/plant.XXXXXX); cp -a /repo "$W/repo"
  git -C "$W/repo" checkout -q -- . 
  unshare -Urm bash -s "$W" "$id" <<'I'
W=$1; id=$2
mount --bind "$W/repo" /repo; D=/tmp/d.$$; cp -r /verif/seeded/$id $D; rm -f $D/*.diff $D/meta.json
cd /repo
bash /opt/vp/build.sh >"$W/b0" 2>&1 || echo "$id: CLEAN BUILD FAILED"
timeout 300 bash $D/demo.sh >"$W/d0" 2>&1; r0=$?
git apply /verif/seeded/$id/patch.diff || echo "$id: PATCH DOES NOT APPLY"
bash /opt/vp/test.sh "$W/o.json" >"$W/t1" 2>&1
timeout 300 bash $D/demo.sh >"$W/d1" 2>&1; r1=$?
miss=$(python3 - "$W/o.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
b=b['stable']
print(len(set(b)-set(o['passed'])), len(o['passed']))
P
)
echo "$id: demo clean=$r0 patched=$r1; stable tests lost/passed: $miss"
[ $r0 = 0 ] || tail -5 "$W/d0"
[ $r1 != 0 ] || { tail -3 "$W/d1"; }
[ "${miss%% *}" = 0 ] || grep -a "FAILED\|error" "$W/t1" | head -5
rm -rf /tmp/d.$$
I
  rm -rf "$W"
done
