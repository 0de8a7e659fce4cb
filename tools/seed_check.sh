#!/bin/bash
# usage: seed_check.sh ID [PROP...]
# Confirms in a scratch copy of /repo that the planted bug seeded/ID builds, passes
# the stable tests and is shown by its demo; then runs the checks of its
# property (and of PROP...) against it.
root=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
s=$root/seeded/$id
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
d=$(mktemp -d /tmp/seedchk.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"; mkdir -p "$d/out" "$d/demo"; cp "$root/known_findings.jsonl" "$d/out/"
cp -a "$s/." "$d/demo/"; rm -f "$d"/demo/*.diff "$d"/demo/meta.json
cd "$d/repo" || exit 2
bash "$d/demo/demo.sh" > "$d/log0" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 "$d/log0"; exit 3; }
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 3; }
go build ./... > "$d/log1" 2>&1 || { echo "$id: does not build"; tail -5 "$d/log1"; exit 3; }
go test -json -vet=off -count=1 ./... > "$d/t.json" 2>/dev/null
python3 - "$d/t.json" <<'P' || { echo "$id: stable tests fail"; exit 3; }
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
want=set()
def walk(x):
    if isinstance(x,str): want.add(x)
    elif isinstance(x,list): [walk(i) for i in x]
    elif isinstance(x,dict): [walk(i) for i in (x.keys() if all(isinstance(v,(str,int,bool,float)) for v in x.values()) else x.values())]
bad=[]
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get('Action')=='fail' and e.get('Test') and e['Test']!='TestClient': bad.append(e['Test'])
if bad: print(bad); sys.exit(1)
P
timeout 300 bash "$d/demo/demo.sh" > "$d/log2" 2>&1 && { echo "$id: demo does not notice the bug"; exit 3; }
echo "$id: demo says: $(grep -av '^exit status' "$d/log2" | tail -n 1 | cut -c1-160)"
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
for p in $prop "$@"; do
	MC_REPO=$d/repo MC_ROOT=$d/out bash "$root/check.sh" "$p" quick > "$d/log" 2>&1; rc=$?
	echo "   $p rc=$rc $(grep -a -m1 -c VIOLATION "$d/log") $(grep -a -v VIOLATION "$d/log" | tail -n 3 | head -c 400 | tr '\n' ' ')"
done
