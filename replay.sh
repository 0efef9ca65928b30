#!/bin/bash
# replay.sh FILE [-trace]: rebuilds the simulated program from /repo and replays a violation.
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1"); shift
. "$here/tools/build.sh"
scratch=$(mktemp -d "${TMPDIR:-/tmp}/zzsim.XXXXXX") || exit 3
trap 'cd /; rm -rf "$scratch"' EXIT
race=
grep -q '"race": *true' "$file" && race=1
zz_build "$scratch" $race >"$scratch/log" 2>&1 || { cat "$scratch/log" >&2; exit 3; }
bin=zh; [ -n "$race" ] && bin=zhr
GORACE="halt_on_error=0 exitcode=0" "$scratch/$bin" -replay "$file" "$@"
