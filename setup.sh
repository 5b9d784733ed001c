#!/bin/bash
# Compiles the harness once, so that the checks find the standard library in the build cache.
root=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
unset GOOS GOARCH GO111MODULE
mkdir -p "$root/evidence"
cd "$root/harness" && go vet ./h ./model ./sess ./vt && go build -o /dev/null ./cmd/vrun && go build -o /dev/null ./cmd/worker
