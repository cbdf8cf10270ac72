#!/bin/bash
# Demonstrations of the defects against the tree in $1 (default /repo), through an overlay.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd); repo=${1:-/repo}
o=$(mktemp); trap 'rm -f "$o"' EXIT
echo "{\"Replace\":{\"$repo/defects_verif_test.go\":\"$here/defects_verif_test.go\",\"$repo/twins_verif_test.go\":\"$here/twins_verif_test.go\"}}" > "$o"
cd "$repo" && go test -race -overlay "$o" -vet=off -count=1 -run 'TestVerif' .
