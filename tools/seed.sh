#!/bin/bash
# seed.sh ID...: confirms planted bugs in scratch copies of /repo: the patch applies, builds,
# the tests pass, the demo separates the trees, and the property's check reports it.
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
one() {
  id=$1; d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seedXXXXXX); r="$id ($p):"
  cp -a /repo "$t/r"; cp -a "$d" "$t/d"; rm -f "$t/d/"*.diff "$t/d/meta.json"
  cd "$t/r"
  bash "$t/d/demo.sh" >"$t/clean.log" 2>&1 && r="$r demo-clean ok" || { r="$r DEMO FAILS ON CLEAN"; tail -20 "$t/clean.log"; }
  if ! git apply "$d/patch.diff"; then r="$r PATCH DOES NOT APPLY"; else
    go build -o /dev/null ./... ./_examples/*/ || r="$r BUILD FAILS"
    flock /tmp/seedtest.lock go test -json -vet=off -count=1 -timeout 5m ./... >"$t/log"
    python3 /opt/vp/results.py "$t/out.json" "gojson:$t/log" >/dev/null 2>&1
    n=$(python3 - "$t/log" <<'E'
import json,sys
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=sum(1 for l in open(sys.argv[1]) if '"Action":"fail"' in l)
print(bad)
E
)
    [ "$n" = 0 ] && r="$r tests ok" || r="$r TESTS FAIL ($n)"
    bash "$t/d/demo.sh" >"$t/bug.log" 2>&1 && { r="$r DEMO PASSES WITH BUG"; } || r="$r demo-bug ok"
    grep -q "build failed\|\[setup failed\]" "$t/bug.log" && r="$r DEMO DOES NOT BUILD"
    out=$(VERIF_REPO="$t/r" VERIF_OUT="$t/o" bash /verif/check.sh "$p" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then r="$r CAUGHT"; grep '^  \[' <<<"$out" | head -${SEED_LINES:-1} | cut -c1-260; else r="$r MISSED rc=$rc"; fi
  fi
  echo "$r"
  cd /; rm -rf "$t"
}
export -f one
printf '%s\n' "$@" | xargs -P ${SEED_JOBS:-6} -I{} bash -c 'one {}'
