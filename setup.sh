#!/bin/bash
# Builds what needs no source of /repo to be fixed yet: nothing is kept, every
# check builds from /repo's current tree; this only warms the build cache and
# shows that everything compiles.
set -e
cd "$(dirname "$0")/h"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GO111MODULE=on
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
[ -f /repo/go.mod ] || cp /opt/vp/ndaumath.mod /repo/go.mod
[ -f /repo/go.sum ] || cp /opt/vp/ndaumath.sum /repo/go.sum
T=$(mktemp -d /tmp/verif-setup.XXXXXX)
go build -o "$T/" ./cmd/... || echo "some checks do not build" >&2
rm -rf "$T"
