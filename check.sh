#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [simulator options]
# Builds the simulator with zanzi's working tree in /repo (hooks on) and runs one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
shift; [ $# -gt 0 ] && shift
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
scratch="$(mktemp -d "${TMPDIR:-/tmp}/zsim.XXXXXXXX")" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/runs"
cp "$here/sim/go.mod" "$scratch/go.mod" && cp "$here/sim/go.sum" "$scratch/go.sum" || exit 2
if ! (cd "$here/sim" && go build -modfile "$scratch/go.mod" -tags verif -o "$scratch/zsim" .) >"$scratch/build.log" 2>&1; then
  echo "build failed" >&2
  cat "$scratch/build.log" >&2
  exit 3
fi
export ZSIM_SCRATCH="$scratch/runs"
if [ "$prop" = replay ]; then
  "$scratch/zsim" replay "$tier"
else
  "$scratch/zsim" check "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -dir "$here" "$@"
fi
exit $?
