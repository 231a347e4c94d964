#!/bin/bash
# bugtest.sh ID [PROP...] : confirm a planted bug in the scratch clone (bind-mounted over /repo in an own mount namespace):
# it builds, the stable tests pass, the demo tells it apart; then run the checks of PROPs (default: its own) against it
id=$1; shift
d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
L=${LANE:-1}; S=/tmp/seed/repo$L
git -C $S checkout -q -- . && git -C $S pull -q /repo HEAD 2>/dev/null
unshare -m bash -c "
mount --bind $S /repo && mount --bind /tmp/seed/vp$L /opt/vp || exit 9
cd /repo
w=/tmp/seed/demo.$id; mkdir -p \$w; cp $d/* \$w; chmod +x \$w/demo.sh 2>/dev/null; rm -f \$w/patch.diff \$w/meta.json
if [ -z \"$SKIPCONF\" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD-CLEAN-FAILED
timeout 300 bash \$w/demo.sh >\$w/clean.log 2>&1; echo \"$id demo clean rc=\$?\"
fi
git apply $d/patch.diff || exit 8
if [ -z \"$SKIPCONF\" ]; then
bash /opt/vp/test.sh /tmp/seed/out.$id.json >/tmp/seed/test.$id.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed/out.$id.json'))
print('$id stable tests missing:', sorted(b-set(r['passed'])))
P
timeout 300 bash \$w/demo.sh >\$w/bug.log 2>&1; echo \"$id demo bug rc=\$?\"; tail -3 \$w/bug.log
fi
for p in $props; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py \$p >/tmp/seed/chk.$id.\$p.log 2>&1; echo \"$id check \$p rc=\$?\"; grep -a -m2 'VIOLATION' /tmp/seed/chk.$id.\$p.log; done
git checkout -q -- .
"
