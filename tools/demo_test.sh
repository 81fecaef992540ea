#!/bin/bash
# Runs the test beside this script against /repo's working tree.
# exit 0: the behaviour is right; nonzero: it is not.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'chmod -R u+w "$T"; rm -rf "$T"' EXIT
cp -a /opt/vp/gocache "$T/gocache" && export GOCACHE=$T/gocache GOTMPDIR=$T TMPDIR=$T
P=$(cat "$D/pkg.txt")
echo "{\"Replace\": {\"/repo/$P/demo_verif_test.go\": \"$D/demo_test.go.txt\"}}" > "$T/overlay.json"
cd /repo && timeout 280 go test -count=1 -vet=off -overlay "$T/overlay.json" -run '^TestDemo' "./$P"
