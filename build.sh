#!/bin/bash
# build.sh OUT [race]: instruments the loukoum working tree and builds the simulator against it, in OUT.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
out=$1
race=${2:-}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export GOCACHE=${VERIF_GOCACHE:-$here/.cache/go}
mkdir -p "$out" "$GOCACHE" || exit 2
fail() { echo "build.sh: $1" >&2; exit 2; }
sed "s#=> /repo#=> $repo#" "$here/sim/go.mod" >"$out/go.mod" && cp "$here/sim/go.sum" "$out/go.sum" || fail "go.mod"
cd "$here/sim" || fail "no sim"
CGO_ENABLED=0 go build -o "$out/instr" ./cmd/instr || fail "instr does not build"
compile() {
  "$out/instr" "$repo" "$out/inst" $1 || fail "instrumentation failed"
  local args=(-modfile "$out/go.mod" -overlay "$out/inst/overlay.json") pid=
  if [ -n "$race" ]; then
    CGO_ENABLED=1 go build -race "${args[@]}" -o "$out/simrun-race" ./cmd/simrun &
    pid=$!
  fi
  CGO_ENABLED=0 go build "${args[@]}" -o "$out/simrun" ./cmd/simrun
  local rc=$?
  if [ -n "$race" ]; then wait $pid || rc=1; fi
  return $rc
}
# Channel operations are rewritten without knowing types: should the outcome not compile, they stay as they are.
compile "" 2>"$out/err" || { cat "$out/err" >&2; compile nochan; } || fail "simrun does not build"
