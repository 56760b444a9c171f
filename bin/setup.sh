#!/bin/bash
# builds the symbolic executor from the committed sources (offline)
cd "$(dirname "$0")/.." || exit 1
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export PATH=$GOROOT/bin:$PATH
mkdir -p build evidence
cd symgo && go build -o ../build/symgo .
