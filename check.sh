#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (run from anywhere)
# Builds the checker against the current tree of /repo (or $MC_REPO) and runs it.
set -u
root=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
repo=${MC_REPO:-/repo}
out=${MC_ROOT:-$root}      # where evidence/ and replays/ go, and known_findings.jsonl is
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=${CGO_ENABLED:-1}
: "${HOME:=/root}"; export HOME
work=$(mktemp -d /tmp/mc-build.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
sed "s#=> /repo#=> $repo#" "$root/mc/go.mod" > "$work/go.mod"
cd "$root/mc" || exit 2
case " C21 C22 C23 C24 C25 C26 C31 " in
*" $prop "*)
	MC_REPO=$repo bash "$root/mc/build_sched.sh" "$work" "$prop" || { echo "build failed" >&2; exit 2; }
	bin=$work/sched ;;
*)
	go build -modfile "$work/go.mod" -o "$work/mc" ./cmd/mc || { echo "build failed" >&2; exit 2; }
	bin=$work/mc ;;
esac
"$bin" -property "$prop" -tier "$tier" -root "$out" ${MC_ARGS:-}
rc=$?
exit $rc
