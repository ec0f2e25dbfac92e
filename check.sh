#!/bin/bash
# usage: check.sh ID quick|thorough [options]: rebuild from /repo's working tree, then explore.
cd "$(dirname "$0")" || exit 3
./build.sh || { echo "build failed" >&2; exit 3; }
exec "${DST_TARGET:-$PWD/dst/target}/debug/dst" check "$@" --out "$PWD"
