#!/bin/bash
# tools/mutc.sh SEED: contracts-only check of the seed's property with the planted change applied
cd /verif; PID=${1%%-*}
git -C /repo apply /verif/seeded/$1/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
python3-vt check.py $PID --no-bounded | cut -c1-${W:-260} | tail -${N:-4}
