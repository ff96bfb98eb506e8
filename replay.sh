#!/bin/bash
# replay.sh FILE: runs a replay file against the working tree in /repo; exits 1 when the violation shows.
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/loukoum-sim.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
race=
grep -q '"build": "race"' "$1" && race=race
"$here/build.sh" "$work" $race || exit 2
mkdir -p "$work/scratch"
"$work/simrun" replay -file "$1" -plain "$work/simrun" -race "$work/simrun-race" -scratch "$work/scratch"
