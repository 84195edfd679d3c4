#!/bin/bash
# builds the simulator worker from the current /repo tree into $1
set -e
OUT=$1
cd /verif
. ./env.sh
mkdir -p "$OUT"
(cd cmd/vgen && go build -o "$OUT/vgen" .)
"$OUT/vgen" -repo "${REPO:-/repo}" -sim /verif/sim -out "$OUT"
cp "${REPO:-/repo}"/go.mod "${REPO:-/repo}"/go.sum "$OUT/"
cd "${REPO:-/repo}" && go test -c -vet=off -overlay "$OUT/overlay.json" -modfile "$OUT/go.mod" -o "$OUT/worker" ./internal/vsim/harness
