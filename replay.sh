#!/bin/bash
# usage: replay.sh FILE   re-runs the case a VIOLATION line names
set -u
root=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "${1:?replay file}")
prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$file")
repo=${MC_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
work=$(mktemp -d /tmp/mc-build.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
sed "s#=> /repo#=> $repo#" "$root/mc/go.mod" > "$work/go.mod"
cd "$root/mc" || exit 2
case " C21 C22 C23 C24 C25 C26 C31 " in
*" $prop "*) MC_REPO=$repo bash "$root/mc/build_sched.sh" "$work" "$prop" || exit 2; bin=$work/sched ;;
*) go build -modfile "$work/go.mod" -o "$work/mc" ./cmd/mc || exit 2; bin=$work/mc ;;
esac
"$bin" replay -file "$file" -root "$root"
