#!/bin/bash
# check.sh PROPERTY quick|thorough
# Builds the simulated program from /repo's working tree and searches.
# Exit 0: held on everything explored; 1: violation; anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/build.sh"
prop=$1 tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/zzsim.XXXXXX") || exit 3
cleanup() { cd /; rm -rf "$scratch"; }
trap cleanup EXIT
trap 'exit 3' INT TERM
if ! zz_build "$scratch" race >"$scratch.log" 2>&1; then
  cat "$scratch.log" >&2; rm -f "$scratch.log"
  echo "ERROR: the simulated program does not build" >&2
  exit 3
fi
rm -f "$scratch.log"
secs=50
[ "$tier" = thorough ] && secs=${VERIF_THOROUGH_SECONDS:-600}
export ZZ_KNOWN="$VERIF/known-findings.txt"
mkdir -p "$VERIF/evidence" "$VERIF/replays"
args=(-prop "$prop" -tier "$tier" -seed "$seed" -seconds "$secs" -workers "$(nproc)" -evidence "$VERIF/evidence/$prop.json" -replays "$VERIF/replays" -racebin "$scratch/zhr")
"$scratch/zh" "${args[@]}"
exit $?
