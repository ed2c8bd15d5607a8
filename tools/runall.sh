#!/bin/bash
# runall.sh [tier] [ids...]: run the checks one after another, print a summary
T=${1:-quick}; shift
cd "$(dirname "$0")/.."
for i in ${@:-$(seq -f 'C%02.0f' 1 30)}; do
  s=$(date +%s); ./check.sh $i $T > /tmp/runall.$i.log 2>&1; rc=$?
  echo "$i rc=$rc $(( $(date +%s)-s ))s $(grep -c KNOWN /tmp/runall.$i.log) $(grep '^property' /tmp/runall.$i.log | cut -d' ' -f4-7)"
done
