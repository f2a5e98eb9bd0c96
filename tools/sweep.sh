#!/bin/bash
# sweep.sh <scale> <seeds> <property>...: runs quick checks at a larger scale over several seeds, and prints what failed
scale=$1; seeds=$2; shift 2
for p in "$@"; do for s in $seeds; do
  VERIF_SEED=$s timeout 900 python3 /verif/tools/check.py $p quick -- --scale $scale --budget 200 > /tmp/sweep.$p.$s 2>&1; rc=$?
  echo "$p seed $s rc $rc $(grep -c 'not reproduced' /tmp/sweep.$p.$s) $(grep -E 'distinct' /tmp/sweep.$p.$s | tail -1)"
  [ $rc != 0 ] && grep -A40 'what failed' /tmp/sweep.$p.$s | cut -c1-500
done; done
