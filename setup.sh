#!/bin/bash
# Warms the build cache of the monitors (plain and race builds). Offline.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
cd "$here/harness" || exit 1
go build -mod=readonly -o /dev/null . || exit 1
go build -race -mod=readonly -o /dev/null . || exit 1
