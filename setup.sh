#!/bin/bash
# Builds the symbolic engine (offline) and warms the native build of /repo.
set -e
cd "$(dirname "$0")/engine"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o symgo.new . && mv symgo.new symgo
if [ "$1" != quick ]; then
  # warm the build cache the native replays use
  ( . /opt/vp/env.sh 2>/dev/null; cd /repo && CGO_ENABLED=1 GOFLAGS="-mod=readonly -buildvcs=false" GOCACHE=/root/.cache/go-build /usr/lib/go-1.22/bin/go build ./... ) >/dev/null 2>&1 || true
fi
