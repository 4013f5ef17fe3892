#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current working tree.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export VERIF_DIR="$V"
if [ ! -x "$V/.bin/govc" ] || [ -n "$(find "$V/govc" -name '*.go' -newer "$V/.bin/govc" 2>/dev/null | head -1)" ]; then
  mkdir -p "$V/.bin" && (cd "$V/govc" && go build -o "$V/.bin/govc.$$" . && mv -f "$V/.bin/govc.$$" "$V/.bin/govc") || exit 2
fi
exec "$V/.bin/govc" check "$@"
