#!/bin/sh
# Builds every check once, so that later builds find a warm cache.
cd "$(dirname "$0")/../harness" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=readonly
go test -vet=off -count=1 -run '^$' ./... >/dev/null 2>&1
go build ./h ./ref
