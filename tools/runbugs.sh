#!/bin/bash
# tools/runbugs.sh [-a] [bug...]: apply each planted bug to /repo, run the check
# of its property (with -a, every check), undo it, and tabulate.
cd "$(dirname "$0")/.."
ALL=
[ "$1" = -a ] && { ALL=1; shift; }
[ $# -eq 0 ] && set -- $(ls seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b APPLY"; continue; }
  ps=$p; [ -n "$ALL" ] && ps=$(seq -f "C%02g" 1 30)
  r=
  for q in $ps; do
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick ./check.sh $q quick >/tmp/runbugs.$b.$q.log 2>&1; x=$?
    e=$(( $(date +%s)-s ))
    if [ $x = 1 ] && grep -q "^VIOLATION property=$q " /tmp/runbugs.$b.$q.log; then r="$r $q:caught(${e}s)"
    elif [ $x = 0 ]; then [ -n "$ALL" ] && [ $q != $p ] || r="$r $q:MISSED(${e}s)"
    else r="$r $q:EXIT$x(${e}s)"; fi
  done
  git -C /repo checkout -- .
  echo "$b [$p]$r"
done
