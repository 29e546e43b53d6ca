#!/bin/bash
# sweep.sh "seeds" [tier] [checks]: all the checks with several seeds; prints only alarms.
tier=${2:-quick}
for s in $1; do for i in ${3:-$(seq -f C%02g 1 32)}; do
  out=$(VERIF_NOEVIDENCE=1 bash /verif/check.sh $i --seed $s --tier $tier 2>&1); rc=$?
  [ $rc = 0 ] || { echo "== $i seed $s rc $rc"; echo "$out" | cut -c1-600 | head -25; }
done; echo "seed $s done"; done
