#!/bin/bash
# tools/sweep.sh TIER FROM TO [IDS...]: run the checks over many seeds, print only what is not quiet
cd "$(dirname "$(realpath "$0")")/.." || exit 2
tier=$1; from=$2; to=$3; shift 3
ids=${*:-$(seq -f 'C%02g' 1 99)}
for s in $(seq $from $to); do for i in $ids; do
  [ -f wv/props/${i,,}.py ] || continue
  out=$(./check $i --tier $tier --seed $s 2>&1); rc=$?
  [ $rc = 0 ] || { echo "== $i seed $s rc $rc"; echo "$out" | grep -v '^observed' | cut -c1-1500; }
done; done
echo "sweep $tier $from-$to done"
