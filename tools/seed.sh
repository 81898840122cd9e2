#!/bin/bash
# seed.sh ID [quick]: confirm a planted bug (builds, passes the stable tests, demo fails with it) and run its check, in a private copy of /repo.
id=$1; s=/verif/seeded/$id; w=/tmp/seed-$id
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
rm -rf "$w"; cp -a "${SRC:-/repo}" "$w"
unshare -m bash -c "
mount --bind $w /repo; cd /repo
mkdir -p /tmp/seeddemo-$id; cp $s/* /tmp/seeddemo-$id/; rm -f /tmp/seeddemo-$id/*.diff /tmp/seeddemo-$id/meta.json
if [ '$2' != quick ]; then
bash /opt/vp/build.sh >/tmp/seed-$id.log 2>&1; (timeout 300 bash /tmp/seeddemo-$id/demo.sh >>/tmp/seed-$id.log 2>&1); echo '$id demo-clean rc='\$?
fi
git apply $s/patch.diff || { echo '$id patch does not apply'; exit 1; }
if [ '$2' != quick ]; then
bash /opt/vp/build.sh >/tmp/seed-$id.log 2>&1 && echo '$id builds' || echo '$id BUILD FAILS'
(timeout 300 bash /tmp/seeddemo-$id/demo.sh >>/tmp/seed-$id.log 2>&1); echo '$id demo-patched rc='\$?
bash /opt/vp/test.sh /tmp/seed-$id.json >>/tmp/seed-$id.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed-$id.json'))
m=[x for x in b['stable'] if x not in set(o['passed'])]
print('$id tests', 'ok' if not m else 'FAIL %s'%m[:5])
P
fi
cd /verif; timeout 900 python3 check.py $p > /tmp/seed-$id.check 2>&1; echo '$id check $p rc='\$? \$(grep -c ^VIOLATION /tmp/seed-$id.check) violations
"
rm -rf "$w" /tmp/seeddemo-$id
