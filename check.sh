#!/bin/bash
# check.sh ID: builds the checker from /verif/checker and decides property ID on /repo.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence replay
tmp=$(mktemp bin/mbcheck.XXXXXX) || exit 2
trap 'rm -f "$tmp"' EXIT
(cd checker && go build -o "../$tmp" .) || { echo "checker does not build"; exit 2; }
[ "$1" = build ] && exit 0
unset GOFLAGS
"./$tmp" "$1" "${VERIF_REPO:-/repo}" "${VERIF_OUT:-$PWD}"
