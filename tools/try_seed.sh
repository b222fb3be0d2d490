#!/bin/bash
# Development aid: tries a planted bug in a private copy of /repo that is
# mounted over /repo in a namespace of its own.
#   try_seed.sh ID [tests] [demo] [check PROP]...
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/seed-XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/evidence"
[ -d "$V/.build" ] && cp -a "$V/.build" "$W/build"
cat > "$W/run.sh" <<'R'
V=$1; W=$2; id=$3; shift 3
mount --bind "$W/repo" /repo; mount --bind "$W/evidence" "$V/evidence"
cp -a "$V/seeded/$id" "$W/seed"; rm -f "$W"/seed/*.diff "$W/seed/meta.json"
cd /repo
git apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; exit 1; }
while [ $# -gt 0 ]; do
  case $1 in
  tests) bash /opt/vp/build.sh > "$W/b.log" 2>&1 || { echo "$id: BUILD FAILS"; tail -20 "$W/b.log"; exit 1; }
    bash /opt/vp/test.sh "$W/o.json" > "$W/t.log" 2>&1
    python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else set(json.load(open('/opt/vp/BASELINE.json'))['passed'])
p=set(json.load(open('$W/o.json'))['passed'])
print('$id: tests', 'ok' if b<=p else 'FAIL %s'%sorted(b-p)[:5])";;
  demo) timeout 300 bash "$W/seed/demo.sh" > "$W/d.log" 2>&1; r=$?; echo "$id: patched demo exits $r: $(tail -1 "$W/d.log" | cut -c1-150)"
     git checkout -q -- . ; bash /opt/vp/build.sh > "$W/b.log" 2>&1; timeout 300 bash "$W/seed/demo.sh" > "$W/d.log" 2>&1; r=$?; echo "$id: clean demo exits $r: $(tail -1 "$W/d.log" | cut -c1-150)"
     git apply "$V/seeded/$id/patch.diff";;
  check) shift; cd "$V"; MC_BUILD="$W/build" python3 check.py $1 > "$W/c.log" 2>&1; r=$?; echo "$id: check $1 exits $r: $(grep -c '^VIOLATION' "$W/c.log") violations"; grep -v "^0x\|^ *#\|^==\|^\[" "$W/c.log" | head -12 | cut -c1-300; cd /repo;;
  esac; shift
done
R
unshare -Urm bash "$W/run.sh" "$V" "$W" "$id" "$@"
rm -rf -- "${W:?}"
