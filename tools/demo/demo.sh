#!/bin/bash
# Runs the demonstration test inside the package. Exit 0 when the property holds.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
{
 echo '{"Replace": {'
 sep=""
 for f in "$D"/*_test.go; do
  echo "$sep\"$PWD/zz_demo_$(basename "$f")\": \"$f\""
  sep=","
 done
 echo '}}'
} > "$W/overlay.json"
go test -overlay "$W/overlay.json" -vet=off -count=1 -timeout 200s -run 'TestDemo' . || exit 1
