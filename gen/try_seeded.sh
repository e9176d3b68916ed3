#!/bin/bash
# try_seeded.sh ID [PROP...]: apply seeded/ID to /repo, build, demo, tests, the property's check; undo. For development only.
id=$1; shift
S=/verif/seeded/$id
D=$(mktemp -d /tmp/seedcopy.XXXX)
cp -a $S/. $D; rm -f $D/patch.diff $D/meta.json
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "build failed (clean)"
timeout 300 bash $D/demo.sh >/tmp/demo.clean.log 2>&1; echo "$id demo clean: $?"
git apply $S/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$id BUILD FAILED"; tail -5 /tmp/b.log; }
timeout 300 bash $D/demo.sh >/tmp/demo.bug.log 2>&1; echo "$id demo bug: $? ($(tail -1 /tmp/demo.bug.log | cut -c1-150))"
[ -n "$NOTESTS" ] || { bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/seed_out.json'))
ok=set(o.get('passed',o.get('pass',[])))
print('  tests broken:',sorted(b-ok) or 'none')
P
}
cd /verif
for p in ${@:-$prop}; do python3 check.py $p > /tmp/chk.log 2>&1; rc=$?; echo "  $id check $p rc=$rc $(grep -c VIOLATION /tmp/chk.log) $(grep 'events violate' /tmp/chk.log | cut -c1-200)"; done
git -C /repo checkout -q -- .
case $D in /tmp/seedcopy.*) rm -rf $D;; esac
