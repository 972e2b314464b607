#!/bin/bash
# plant.sh ID PROPERTY NEEDS BREAKS: turns the edits in the scratch tree ${SCRATCH:-/tmp/s0} into /verif/seeded/ID/{patch.diff,meta.json}
# and undoes them. demo.sh must already be in the folder; it must pass on the clean tree and fail on the edited one.
set -e
id=$1 prop=$2; d=/verif/seeded/$id
mkdir -p $d
git -C ${SCRATCH:-/tmp/s0} diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change in ${SCRATCH:-/tmp/s0}"; exit 1; }
python3 - "$d/meta.json" "$prop" "$3" "$4" <<'P'
import json, sys
json.dump(dict(property=sys.argv[2], needs=sys.argv[3], what_it_breaks=sys.argv[4]), open(sys.argv[1], 'w'), indent=1)
P
[ -f $d/demo.sh ] || { echo "no demo.sh"; exit 1; }
(cd ${SCRATCH:-/tmp/s0} && bash $d/demo.sh >/tmp/plant.out 2>&1) && { echo "demo passes with the patch"; cat /tmp/plant.out; exit 1; }
echo "with patch: $(tail -1 /tmp/plant.out)"
git -C ${SCRATCH:-/tmp/s0} checkout -q -- .
(cd ${SCRATCH:-/tmp/s0} && bash $d/demo.sh >/tmp/plant.out 2>&1) || { echo "demo fails on the clean tree"; cat /tmp/plant.out; exit 1; }
git -C /repo apply --check $d/patch.diff
echo "planted $id"
