#!/bin/bash
# Runs the demonstrations of the repaired defects against $REPO (default /repo) through an overlay.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
REPO=${REPO:-/repo}; cd "$REPO"
o=$(mktemp)
python3 - "$here/tests" "$REPO" >"$o" <<'P'
import sys,os,json
d,r=sys.argv[1:]
m={"api":"api","cluster":"cluster","cache":"cache","config":"config","provider":"provider","middleware":"server/middleware","server":"server","kache":"kache","server2":"server"}
print(json.dumps({"Replace":{f"{r}/pkg/{m[f.split('_')[0]]}/{f}":f"{d}/{f}" for f in os.listdir(d)}}))
P
go test -race -vet=off -count=1 -timeout 120s -overlay "$o" -run "${1:-TestF}" ./pkg/...
rc=$?; rm -f "$o"; exit $rc
