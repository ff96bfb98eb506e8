#!/bin/bash
# check.sh PROPERTY: decides one property on the working tree in /repo. VERIF_TIER is quick or thorough.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${VERIF_TIER:-quick}
[ $# -gt 1 ] && tier=$2
seed=${VERIF_SEED:-1}
case "$tier" in
  thorough) secs=${VERIF_SECONDS:-600}; mins=150 ;;
  *) tier=quick; secs=${VERIF_SECONDS:-50}; mins=60 ;;
esac
work=$(mktemp -d /tmp/loukoum-sim.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
race=
case "$prop" in C02|C06|C08|C09|C13) race=race ;; esac
"$here/build.sh" "$work" $race || exit 2
mkdir -p "$here/evidence" "$here/replays" "$work/scratch"
raceargs=()
[ -n "$race" ] && raceargs=(-race "$work/simrun-race")
"$work/simrun" drive -prop "$prop" -tier "$tier" -seed "$seed" -seconds "$secs" -minimise "$mins" -plain "$work/simrun" "${raceargs[@]}" \
  -points "$work/inst/points.json" -evidence "$here/evidence/$prop.json" -out "$here/replays" -scratch "$work/scratch"
code=$?
[ $code -eq 0 ] || [ $code -eq 1 ] || code=2
exit $code
