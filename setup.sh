#!/bin/bash
# setup.sh: checks that the machinery builds from the committed files (every check builds again for itself).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/build.sh"
scratch=$(mktemp -d "${TMPDIR:-/tmp}/zzsim.XXXXXX") || exit 3
trap 'cd /; rm -rf "$scratch"' EXIT
zz_build "$scratch" || exit 1
echo "setup: the simulated program builds"
