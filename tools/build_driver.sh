#!/bin/bash
# usage: build_driver.sh OUTDIR   (compiles the driver against /repo's working tree)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
O=$1; mkdir -p "$O"
R=${NETAUTH_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on
cp "$R/go.mod" "$O/netauth.mod"; cp "$R/go.sum" "$O/netauth.sum"
python3 - "$V" "$R" "$O" <<'P'
import sys,os,json,glob
V,R,O=sys.argv[1:]
rep={}
for f in glob.glob(V+'/driver/*.go'): rep[f"{R}/internal/verifdrv/{os.path.basename(f)}"]=f
json.dump({"Replace":rep},open(O+'/overlay.json','w'))
P
cd "$R"
exec go build $VERIF_RACE -mod=mod -modfile="$O/netauth.mod" -overlay "$O/overlay.json" -o "$O/driver" ./internal/verifdrv
