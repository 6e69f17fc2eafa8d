#!/bin/bash
# seeds.sh ID FROM TO [args]: run a check at several seeds, print only trouble
id=$1; a=$2; b=$3; shift 3
for s in $(seq $a $b); do
  out=$(bash "$(dirname "$0")/run.sh" $id --seed $s "$@" 2>&1); rc=$?
  [ $rc -ne 0 ] && { echo "seed $s rc=$rc"; echo "$out" | grep -E "^  \[|VIOL|ERROR|rror" | cut -c1-400 | sort -u | head -12; }
done
echo "$out" | cut -c1-200
