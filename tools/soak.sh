#!/bin/bash
# soak.sh "C01 C02 ..." FROM TO [tier] - runs checks with many seeds; prints what is not quiet.
cd "$(dirname "$0")/.."
for s in $(seq $2 $3); do for c in $1; do
  o=$(VERIF_SEED=$s VERIF_TIER=${4:-quick} python3 check.py $c 2>&1) || { echo "seed $s $c: $o" | head -c 1500; echo; cp evidence/replay/$c.json /tmp/soak-$c-$s.json 2>/dev/null; }
done; done
echo soak done
