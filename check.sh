#!/bin/bash
# check.sh ID TIER: builds the harness against /repo's working tree and runs one check.
id=${1:?}; tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR="$here" VERIF_SEED="${VERIF_SEED:-1}"
export GOFLAGS=-mod=mod
cd "$here/harness" || exit 2
mkdir -p bin
race=""; bin=bin/vh
case "$id" in Z*) race="-race"; bin=bin/vh-race;; esac
if ! out=$(go build $race -o "$bin" . 2>&1); then
  echo "build failed"; echo "$out" | tail -40; exit 2
fi
exec "$here/harness/$bin" run "$id" "$tier"
