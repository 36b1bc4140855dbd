#!/bin/bash
# builds the verifier; sourced by check.sh
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
[ -w /root/.cache ] && export GOCACHE=/root/.cache/go-build
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/gover" && GOFLAGS=-mod=mod go build -o "$here/bin/gover" .)
