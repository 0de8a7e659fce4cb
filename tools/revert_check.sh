#!/bin/bash
# usage: revert_check.sh COMMIT PROP...   Reverts one fix: commit in a scratch
# copy of /repo and runs the checks there; prints which of them notice.
root=$(cd "$(dirname "$0")/.." && pwd)
c=$1; shift
d=$(mktemp -d /tmp/revert.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"; mkdir "$d/out"; cp "$root/known_findings.jsonl" "$d/out/"
git -C "$d/repo" -c user.name=x -c user.email=x revert --no-edit "$c" >/dev/null 2>&1 || { echo "$c: revert conflicts"; git -C "$d/repo" revert --abort; exit 3; }
for p in "$@"; do
	MC_REPO=$d/repo MC_ROOT=$d/out bash "$root/check.sh" "$p" quick > "$d/log" 2>&1; rc=$?
	echo "$c $p rc=$rc $(grep -a -m1 VIOLATION "$d/log" | cut -c1-40) $(tail -n 3 "$d/log" | head -c 300 | tr '\n' ' ')"
done
