#!/bin/bash
# Builds the checkers once, so that the Go build cache holds what they need.
set -e
root=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
work=$(mktemp -d /tmp/mc-setup.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp "$root/mc/go.mod" "$work/go.mod"
cd "$root/mc"
go build -modfile "$work/go.mod" -o "$work/mc" ./cmd/mc
if [ -f build_sched.sh ]; then
	MC_REPO=/repo bash build_sched.sh "$work" C21
	MC_REPO=/repo bash build_sched.sh "$work" C26
fi
