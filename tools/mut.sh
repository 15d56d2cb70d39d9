#!/bin/bash
# tools/mut.sh SEED [filter]: obligations of the seed's property with the planted change applied
cd /verif; P=seeded/$1/patch.diff; PID=${1%%-*}
git -C /repo apply /verif/$P || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
W=300 timeout 600 python3-vt -m pyvc.runner $PID $2 | grep -v ^proved | cut -c1-420 | head -${N:-8}
