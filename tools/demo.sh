#!/bin/bash
# Builds and runs the demonstration beside this script against /repo.
# exit 0: the behaviour is right; nonzero: it is not.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'chmod -R u+w "$T"; rm -rf "$T"' EXIT
cp -a /opt/vp/gocache "$T/gocache" && export GOCACHE=$T/gocache GOTMPDIR=$T TMPDIR=$T
python3 - "$D" "$T/overlay.json" <<'P'
import sys, json, glob, os
d, o = sys.argv[1:]
json.dump({"Replace": {"/repo/internal/verifdemo/" + os.path.basename(f)[:-4]: f for f in glob.glob(d + "/*.go.txt")}}, open(o, "w"))
P
cd /repo && go build -overlay "$T/overlay.json" -o "$T/demo" ./internal/verifdemo || exit 4
cd "$T" && timeout 200 "$T/demo"
