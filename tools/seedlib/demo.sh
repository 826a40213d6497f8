#!/bin/bash
# Runs demo_test.go against the code in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
S=$(mktemp -d) || exit 3
trap '/bin/rm -rf "$S"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on HOME=${HOME:-/root} DEMO_SCRATCH="$S" TMPDIR="$S"
cp "$R/go.mod" "$S/m.mod"; cp "$R/go.sum" "$S/m.sum"
python3 - "$D" "$R" "$S" <<'P'
import sys, os, json, glob
D, R, S = sys.argv[1:]
rep = {f"{R}/internal/zzdemo/{os.path.basename(f)}": f for f in glob.glob(D + "/*_test.go")}
json.dump({"Replace": rep}, open(S + "/overlay.json", "w"))
P
go test -c -vet=off -mod=mod -modfile="$S/m.mod" -overlay "$S/overlay.json" -o "$S/demo" ./internal/zzdemo || exit 4
cd "$S" && timeout 250 ./demo -test.timeout 240s
