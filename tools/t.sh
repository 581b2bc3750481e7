#!/bin/sh
# t.sh PKG [go test args]: run one check's package directly.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=readonly
cd /verif/harness || exit 1
p=$1; shift
go vet ./h ./ref ./$p || exit 1
go test ./$p -rapid.nofailfile "$@" 2>&1 | cut -c1-1200 | head -${LINES_MAX:-70}
