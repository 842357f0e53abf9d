#!/bin/bash
# try_plant.sh ID [PROPS]: applies seeded/ID in private copies of /repo and /verif (own mount namespace), builds, runs demo, tests, checks.
# NOTEST=1 skips the stable tests. Result: /tmp/pl/ID.res
id=$1; shift
w=/tmp/pl/w-$id; mkdir -p "$w"; cp -a /repo "$w/repo"; mkdir "$w/verif"
(cd /verif && tar cf - --exclude=.git --exclude=replays --exclude=seeded . ) | tar xf - -C "$w/verif"
cp -a /verif/seeded/$id "$w/seed"
props=${*:-$(python3 -c "import json;print(json.load(open('$w/seed/meta.json'))['property'])")}
unshare -Urm bash -c "
mount --bind $w/repo /repo; mount --bind $w/verif /verif
cd /repo
bash $w/seed/demo.sh >$w/demo0 2>&1; echo demo-clean \$?
git apply $w/seed/patch.diff || { echo NOAPPLY; exit; }
bash /opt/vp/build.sh >$w/build 2>&1 || { echo NOBUILD; tail -5 $w/build; exit; }
bash $w/seed/demo.sh >$w/demo1 2>&1; echo demo-bug \$?; tail -2 $w/demo1
if [ -z \"$NOTEST\" ]; then bash /opt/vp/test.sh $w/t.json >$w/tlog 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w/t.json'))
st=b.get('stable') or b.get('tests') or b
P
tail -3 $w/tlog; grep -E '^(FAILED|ERROR)' $w/tlog | head; fi
for p in $props; do ( time timeout 900 bash /verif/run.sh \$p ) >$w/c 2>&1; echo check \$p rc \$?; grep -c ^VIOLATION $w/c; grep -A1 -m2 '^  ' $w/c | cut -c1-300; grep real $w/c; done
" > /tmp/pl/$id.res 2>&1
rm -rf "$w"
echo "== $id"; cat /tmp/pl/$id.res
