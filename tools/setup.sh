#!/bin/bash
# Warms the Go build cache for the harness (every check builds what it needs by itself).
cd "$(dirname "$0")/.." || exit 1
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
work=$(mktemp -d /tmp/verifsetup.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
cp -r mc "$work/mc" && cd "$work/mc" && bash ./build.sh C01 "$work/bin"
