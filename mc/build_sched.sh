#!/bin/bash
# usage: build_sched.sh WORKDIR PROPERTY
# Rewrites the library in $MC_REPO for the controlled scheduler and builds
# WORKDIR/sched with it (and, for C26, WORKDIR/sched-worker with the race detector).
set -eu
work=$1 prop=$2
here=$(cd "$(dirname "$0")" && pwd)
cd "$here"
mkdir -p "$work/src"
go build -o "$work/rewrite" ./cmd/rewrite
"$work/rewrite" "$MC_REPO" "$work/src" "$work/overlay.json"
build() { go build -modfile "$work/go.mod" -overlay "$work/overlay.json" "$@" ./cmd/sched; }
rm -f "$work/sched-worker"
build -o "$work/sched"
if [ "$prop" = C26 ]; then
	# cases run in a program where the library is watched and the harness is not
	# (without inlining: what is inlined into the harness is not watched either),
	# with pools that do not order the calls of package fmt
	sed "s#\"Replace\": *{#&\"$(go env GOROOT)/src/sync/pool.go\":\"$here/std/pool.go.txt\",#" "$work/overlay.json" > "$work/overlay-race.json"
	grep -q pool.go.txt "$work/overlay-race.json"
	CGO_ENABLED=1 build -overlay "$work/overlay-race.json" -race "-gcflags=verifmc/...=-race=false -l" -o "$work/sched-worker"
fi
