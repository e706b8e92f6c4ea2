#!/bin/bash
# Build the analyser (every check builds it again if it is missing or out of date).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$here/.bin"
cd "$here/kvet" && GOFLAGS=-mod=vendor go build -o "$here/.bin/kvet" .
