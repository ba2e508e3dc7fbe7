#!/bin/bash
# trybug.sh ID [CHECK...]: try the planted bug /verif/seeded/ID in a scratch copy
# of /repo: build, baseline tests, demonstration with and without the patch, and
# the quick check of its property (or the given checks) against the copy.
# SKIPTESTS=1 leaves out the baseline tests, TIER=thorough runs the thorough tier.
id=$1; shift
dir=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
checks=${*:-$prop}
w=$(mktemp -d /tmp/trybug.XXXXXX); trap 'rm -rf "$w"' EXIT
export VERIF_SRC=/verif
. <(sed '/^mkdir/,$d;/^VERIF_DIR/d' /verif/build.sh)
cp -a /repo "$w/repo"
lay="$w/demo"; mkdir "$lay"; cp "$dir"/* "$lay"; rm -f "$lay"/*.diff "$lay"/meta.json
if [ -z "$SKIPTESTS" ]; then
(cd "$w/repo" && timeout 300 bash "$lay/demo.sh" >"$w/demo0.log" 2>&1); rc=$?
[ $rc = 0 ] || { echo "$id: DEMO FAILS ON THE UNCHANGED TREE rc=$rc"; tail -20 "$w/demo0.log"; exit 1; }
fi
git -C "$w/repo" apply "$dir/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
(cd "$w/repo" && go build $(go list -e ./... | grep -v '/secs4go/verification$')) || { echo "$id: DOES NOT BUILD"; exit 1; }
if [ -z "$SKIPTESTS" ]; then
(cd "$w/repo" && timeout 300 bash "$lay/demo.sh" >"$w/demo1.log" 2>&1); rc=$?
[ $rc != 0 ] && echo "$id: demo ok (rc=$rc): $(grep -m1 -E 'demo_test.go|panic|FAIL' "$w/demo1.log")" || { echo "$id: DEMO PASSES WITH THE PATCH"; tail -20 "$w/demo1.log"; exit 1; }
(cd "$w/repo" && grep -lE '^package gem_test\b' gem/*_test.go | xargs rm -f; go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -v '/secs4go/verification$') >"$w/test.json" 2>/dev/null)
python3 /opt/vp/results.py "$w/out.json" "gojson:$w/test.json"
python3 - "$w/out.json" <<'P' || { echo "$id: BASELINE TESTS FAIL"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
s=b.get('stable') or b.get('passed')
m=[t for t in s if t not in set(o['passed'])]
print('missing',m) if m else None
sys.exit(bool(m))
P
fi
mkdir "$w/v"; cp -a /verif/harness "$w/v/harness"; cp /verif/known-findings.txt "$w/v/"; mkdir "$w/v/evidence" "$w/v/replays"
sed -i "s,=> /repo,=> $w/repo," "$w/v/harness/go.mod"
(cd "$w/v/harness" && go build -o "$w/secsverif" .) || { echo "$id: HARNESS DOES NOT BUILD"; exit 1; }
for c in $checks; do
  [ $c = C27 ] && (cd "$w/v/harness" && CGO_ENABLED=1 go build -race -o "$w/secsverif-race" .)
  t=$(date +%s)
  VERIF_DIR="$w/v" VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} timeout 900 "$w/secsverif" check $c >"$w/$c.log" 2>&1; rc=$?
  v=$(grep -m1 "VIOLATION property=$c" "$w/$c.log")
  if [ $rc = 1 ] && [ -n "$v" ]; then echo "$id: $c CAUGHT ($(( $(date +%s)-t )) s): $(grep -v '^VIOLATION' "$w/$c.log" | grep -m1 -iE 'fail|want|got|:' | cut -c1-200)"; else echo "$id: $c MISSED rc=$rc ($(( $(date +%s)-t )) s)"; [ $rc -gt 1 ] && tail -5 "$w/$c.log"; fi
  [ -n "$SHOW" ] && tail -30 "$w/$c.log"
done
