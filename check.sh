#!/bin/bash
# usage: check.sh PROPERTY [vrun flags]   decides one property on the current tree of /repo
root=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
unset GOOS GOARCH GO111MODULE
id=$1
shift
tmp=$(mktemp -d) || exit 2
trap 'rm -f "$tmp/vrun"; rmdir "$tmp"' EXIT
cd "$root/harness" || exit 2
go build -o "$tmp/vrun" ./cmd/vrun || exit 2
"$tmp/vrun" -prop "$id" -root "$root" "$@"
