#!/bin/bash
# setup.sh: build the verifier from the committed sources (offline).
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
mkdir -p "$V/.bin"
cd "$V/govc" && go build -o "$V/.bin/govc" .
