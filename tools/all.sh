#!/bin/bash
# Runs checks one after another and prints a line for each: tools/all.sh SEED [IDs]
cd "$(dirname "$0")/.."; s=$1; shift
for c in ${*:-$(seq -f C%02g 1 32)}; do ./check.sh $c --seed $s 2>&1 | cut -c1-500 | grep -v KNOWN | head -4; done
