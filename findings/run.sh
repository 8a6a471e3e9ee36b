#!/bin/bash
# run.sh [REPO]: the demonstrations of the repaired defects on a copy of the package (they pass once repaired)
D=$(cd "$(dirname "$0")" && pwd)
R=$(realpath "${1:-/repo}")
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_findings_test.go":"%s/findings_test.go"}}' "$R" "$D" >"$T/o.json"
N=$(grep -o '^func Test[0-9A-Z]\{7\}_[A-Z0-9]*_[A-Za-z]*' "$D/findings_test.go" | sed 's/func //')
cd "$R" && go test -race -vet=off -c -overlay "$T/o.json" -o "$T/t" . || exit 2
rc=0
for n in $N; do
  if timeout 60 "$T/t" -test.run "^$n\$" -test.count=1 >"$T/log" 2>&1; then echo "pass $n"; else
    echo "FAIL $n: $(grep -m1 -E 'zz_findings|panic:|DATA RACE|not in time' "$T/log" | cut -c1-150)"; rc=1; fi
done
exit $rc
