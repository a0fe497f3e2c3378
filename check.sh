#!/bin/bash
# check.sh PROP quick|thorough | replay FILE | trace PROP SEED RUN | determinism PROP SEEDS RUNS
# Builds the simulator together with the current tree of the repository, and runs it.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="${VERIF_REPO:-/repo}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GONOSUMDB=* GOSUMDB=off GOWORK=off
export VERIF_DIR="$here"
build="$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXX")" || exit 2
trap 'rm -rf "$build"' EXIT
cd "$here/sim" || exit 2
sed "s#=> /repo#=> $repo#" go.mod > "$build/go.mod" && cp go.sum "$build/go.sum" || exit 2
go build -modfile="$build/go.mod" -o "$build/instr" ./cmd/instr || { echo "cannot build the instrumenter" >&2; exit 2; }
"$build/instr" "$repo" "$build" "$here/sim/tick/simtick.go.txt" "$here/sim/tick/simsync.go.txt" || exit 2
if ! go test -c -vet=off -modfile="$build/go.mod" -overlay "$build/overlay.json" -o "$build/sim.test" . 2> "$build/err"; then
  # Code that cannot be instrumented is simulated without step counting and yield points.
  VERIF_NO_INSTR=1 "$build/instr" "$repo" "$build" "$here/sim/tick/simtick.go.txt" "$here/sim/tick/simsync.go.txt" || exit 2
  if ! go test -c -vet=off -modfile="$build/go.mod" -overlay "$build/overlay.json" -o "$build/sim.test" .; then
    cat "$build/err" >&2
    echo "cannot build the simulator with the code in $repo" >&2
    exit 2
  fi
  echo "note: built without instrumentation" >&2
fi
case "${1:-}" in
build) echo "simulator builds"; exit 0 ;;
replay) set -- replay "$(cd "$OLDPWD" 2>/dev/null; realpath "$2")" ;;
esac
TMPDIR="$build" "$build/sim.test" -- "$@"
exit $?
