#!/bin/bash
# Builds the simulator once, to see that everything it needs is here.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
scratch="$(mktemp -d "${TMPDIR:-/tmp}/zsim.XXXXXXXX")"
trap 'rm -rf -- "$scratch"' EXIT
cp "$here/sim/go.mod" "$here/sim/go.sum" "$scratch/"
cd "$here/sim" && go build -modfile "$scratch/go.mod" -tags verif -o "$scratch/zsim" .
echo "simulator builds"
