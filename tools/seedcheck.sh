#!/bin/bash
# seedcheck.sh ID [check|nocheck]: confirms a planted bug in a private copy of /repo (bind mounted over /repo in a
# user namespace): applies, builds, stable tests pass, demo fails with and passes without, property's check reports it
id=$1; s=/verif/seeded/$id; w=/tmp/seed-$id; rm -rf $w; cp -a /repo $w
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
( cd /repo && bash $s/demo.sh >/tmp/seed-$id.clean 2>&1 ); c=$?
unshare -Urm bash -c "
mount --bind $w /repo; cd /repo
git apply $s/patch.diff || { echo NOAPPLY; exit 9; }
bash /opt/vp/build.sh >/tmp/seed-$id.build 2>&1 || { echo NOBUILD; tail -5 /tmp/seed-$id.build; exit 9; }
bash /opt/vp/test.sh /tmp/seed-$id.json >/dev/null 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seed-$id.json'))
print('$id tests', 'ok' if b <= set(t['passed']) else 'FAIL %s' % sorted(b-set(t['passed']))[:5])
P
bash $s/demo.sh >/tmp/seed-$id.demo 2>&1; echo $id $prop demo clean=$c patched=\$?
if [ '${2:-check}' = check ]; then for p in $prop $3; do timeout 900 python3 /verif/run.py \$p --tier quick > /tmp/seed-$id.out 2>&1; echo $id \$p check rc=\$? \$(grep -v '^note' /tmp/seed-$id.out | tail -2 | tr '\n' ' ' | cut -c1-250); done; fi
"
rm -rf $w
