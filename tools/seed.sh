#!/bin/bash
# Planted bugs.  seed.sh new ID       scratch copy of /repo in /tmp/seed/ID to edit
#                seed.sh save ID      patch.diff from the scratch copy
#                seed.sh test ID [PROPERTY ...]  build, stable tests, demo with and without, checks
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
id=$2; w=/tmp/seed/$id; d=$V/seeded/$id
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
case $1 in
new) mkdir -p /tmp/seed; rm -rf "/tmp/seed/$id"; cp -a /repo "$w"; git -C "$w" checkout -q -- .;;
save) mkdir -p "$d"; git -C "$w" diff > "$d/patch.diff"; git -C "$w" diff --stat | tail -3;;
test)
  shift 2
  [ -n "${KEEP:-}" ] || { rm -rf "/tmp/seed/$id"; mkdir -p /tmp/seed; cp -a /repo "$w"; }
  git -C "$w" checkout -q -- . 
  bash "$V/tools/lines.sh" "$w" "$d/patch.diff" || echo "!! $id changes lines that are not original"
  rm -rf "$w-demo"; mkdir "$w-demo"; cp -a "$d"/. "$w-demo/"; rm -f "$w-demo"/*.diff "$w-demo"/meta.json
  (cd "$w" && timeout 300 bash "$w-demo/demo.sh" > "$w.clean" 2>&1); a=$?
  git -C "$w" apply "$d/patch.diff" || { echo "!! $id does not apply"; exit 1; }
  (cd "$w" && go build ./... ) > "$w.build" 2>&1 || { echo "!! $id does not build"; tail -5 "$w.build"; }
  rm -rf "$w/test" "$w/memdb/test" "$w/wal/test"
  (cd "$w" && go test -json -vet=off -count=1 -timeout 3m . ./hash ./memdb ./wal ./server/... ) > "$w.test" 2>&1
  python3 - "$w.test" <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: o=json.loads(l)
    except ValueError: continue
    if o.get('Action')=='pass' and 'Test' in o: ok.add(o['Package']+'/'+o['Test'])
if st-ok: print('!! stable tests fail:',sorted(st-ok))
P
  rm -rf "$w/test" "$w/memdb/test" "$w/wal/test"
  (cd "$w" && timeout 300 bash "$w-demo/demo.sh" > "$w.bad" 2>&1); b=$?
  echo "$id demo: clean $a, patched $b"
  [ $a = 0 ] || tail -5 "$w.clean"
  for p in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
    VERIF_REPO=$w VERIF_SEED=${VERIF_SEED:-1} python3 "$V/check" $p quick > "$w.$p" 2>&1; r=$?
    echo "$id $p: exit $r $(grep -c VIOLATION "$w.$p") violations: $(grep -A1 VIOLATION "$w.$p" | sed -n 2p | cut -c1-160)"
    [ $r -le 1 ] || tail -5 "$w.$p"
  done
  rm -rf "/tmp/seed/$id" "/tmp/seed/$id-demo";;
esac
