#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property for /repo's tree
# check.sh replay <file>                 repeat the case of a replay file
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
mkdir -p "$VERIF/.build"
W=$(mktemp -d "$VERIF/.build/bin.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
build() { # name flags...
  local name=$1; shift
  (cd "$VERIF/harness" && go build "$@" -o "$W/$name" .) || { echo "ERROR: build of $name failed"; exit 2; }
}
variant() {
  case $1 in
    plain) build plain ;;
    race) CGO_ENABLED=1 build race -race ;;
    asan) CGO_ENABLED=1 CC=gcc build asan -asan ;;
  esac
}
if [ "${1:-}" = replay ]; then
  eval "$(python3 - "$2" <<'P'
import json,sys,shlex
d=json.load(open(sys.argv[1]))
for k in('property','tier','seed','case','build'): print('R_%s=%s'%(k,shlex.quote(str(d[k]))))
P
)"
  variant "$R_build"
  VERIF_BUILD=$R_build "$W/$R_build" one -prop "$R_property" -tier "$R_tier" -seed "$R_seed" -case "$R_case" -verif "$VERIF"
  exit $?
fi
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $ID in
  C19) V="race" ;;
  C26) V="race asan" ;;
  C30) V="plain" ;; # times under the race detector say nothing
  *) V="plain"; [ "$TIER" = thorough ] && V="plain race" ;;
esac
LEGS=""
for v in $V; do variant $v; LEGS="$LEGS $v=$W/$v"; done
[ -x "$W/plain" ] || SUP="$W/${V%% *}"
VERIF_LEGS=$LEGS VERIF_TIER=$TIER VERIF_WORK=$W "${SUP:-$W/plain}" run -prop "$ID" -tier "$TIER" -seed "$SEED" -verif "$VERIF"
rc=$?
exit $rc
