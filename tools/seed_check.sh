#!/bin/bash
# seed_check.sh ID [PROP...] -- apply the planted change to /repo, run the property's check, undo
ID=$1; shift; D=/verif/seeded/$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
git -C /repo apply $D/patch.diff || exit 2
for p in $P; do
 VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bash /verif/check.sh $p > /tmp/seedcheck.$ID.$p.log 2>&1; rc=$?
 echo "$ID $p rc=$rc $(grep -a -m3 VIOLATION /tmp/seedcheck.$ID.$p.log | tr '\n' ' ')"
done
git -C /repo checkout -- .
