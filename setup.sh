#!/bin/bash
# setup.sh: builds the simulator once, which checks the toolchain and warms the build cache.
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/loukoum-sim.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
"$here/build.sh" "$work" race
