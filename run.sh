#!/bin/bash
# run.sh setup            build the analyzer
# run.sh C05 [tier]       decide one property on /repo's current tree
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
bin="$here/.build/btccheck"
mkdir -p "$here/.build" "$here/evidence"
(
  flock 9
  if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -newer "$bin" -type f -print -quit)" ]; then
    cd "$here/analyzer" && GOFLAGS=-mod=vendor go build -o "$bin.new" . && mv "$bin.new" "$bin"
  fi
) 9>"$here/.build/lock" || { echo "cannot build the analyzer"; exit 2; }
[ "${1:-}" = setup ] && exit 0
tier="${2:-${VERIF_TIER:-quick}}"
exec "$bin" -prop "$1" -tier "$tier" -repo /repo -out "$here/evidence" -known "$here/KNOWN_FINDINGS.txt"
