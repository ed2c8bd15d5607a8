#!/bin/bash
# Checks build what they need themselves; this only makes sure that they can,
# and fills the build cache.
set -eu
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
mkdir -p "$VERIF/.build" "$VERIF/evidence" "$VERIF/replays"
W=$(mktemp -d "$VERIF/.build/setup.XXXXXX")
trap 'rm -rf "$W"' EXIT
cd "$VERIF/harness"
go build -o "$W/plain" .
CGO_ENABLED=1 go build -race -o "$W/race" .
CGO_ENABLED=1 CC=gcc go build -asan -o "$W/asan" .
"$W/plain" list
