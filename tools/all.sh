#!/bin/bash
# all.sh TIER SEED [ids...]: run the checks one after another, one summary line each
cd "$(dirname "$0")/.."; t=$1; s=$2; shift 2
ids=${@:-$(cat tools/claimed.txt)}
for c in $ids; do VERIF_SEED=$s timeout 7000 python3 check.py $c $t > /tmp/all_$c.$t.$s.log 2>&1; echo "$c rc=$? $(tail -1 /tmp/all_$c.$t.$s.log)"; done
