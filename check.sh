#!/bin/bash
# check.sh ID [tier]: decide one property on /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export HOME=${HOME:-/root} GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$here/evidence" "$here/.bin"
exec 9>"$here/.bin/lock"
flock 9
if ! (cd "$here/kvet" && GOFLAGS=-mod=vendor go build -o "$here/.bin/kvet" .); then
  echo "kvet does not build"
  exit 3
fi
flock -u 9
exec 9>&-
exec "$here/.bin/kvet" -repo "${REPO:-/repo}" -out "$here/evidence" -tier "$tier" -known "$here/KNOWN_FINDINGS.txt" check "$id"
