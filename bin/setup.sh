#!/bin/bash
# Builds everything once so that the checks start from warm caches, and
# validates the reference model against the official test vectors.
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p "$root/build" "$root/evidence"
cd "$root/harness" || exit 1
go build -o "$root/build/vmon.setup" ./cmd/vmon || exit 1
rm -f "$root/build/vmon.setup"
CGO_ENABLED=1 go build -race -o "$root/build/vmon.setup" ./cmd/vmon || exit 1
rm -f "$root/build/vmon.setup"
go test -count=1 ./refmls || exit 1
