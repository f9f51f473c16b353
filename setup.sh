#!/bin/bash
# Builds /verif/bin/vstat from /verif/checker, offline.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/checker" || exit 1
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOSUMDB=off CGO_ENABLED=0
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:$PATH
mkdir -p "$here/bin"
exec go build -o "$here/bin/vstat" .
