#!/bin/bash
# Builds the verifier once, to fail early when the toolchain is missing. Every check builds it again.
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
mkdir -p out && cd vc && go build -buildvcs=false -o ../out/vc .
