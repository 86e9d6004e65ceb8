#!/bin/bash
# seedcheck.sh ID [CHECK...]: tests, demo and checks with a planted bug applied
# to /repo, and undone straight afterwards.
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
shift; CH=${@:-$P}
cd /repo || exit 2
git diff --quiet || { echo dirty; exit 2; }
bash $S/demo.sh >/dev/null 2>/tmp/seed.err || { echo "demo fails unpatched"; tail -3 /tmp/seed.err; }
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash $S/demo.sh >/dev/null 2>&1 && echo "DEMO PASSES with the patch"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 -c "
import json;d=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(d['passed']); s=[x for x in (b.get('stable') or b.get('passed') or b) if x not in p]
print('tests', len(p), 'FAILED' if s else 'ok', s[:2])"
fi
for c in $CH; do cd /verif; ./check $c >/tmp/seed.out 2>&1; r=$?
echo "$c rc=$r $(grep -c ^VIOLATION /tmp/seed.out) $(grep -m1 'batch' /tmp/seed.out | cut -c1-150)"; done
