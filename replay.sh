#!/bin/bash
# replay.sh FILE   executes a replay file against /repo's working tree (exit 1: the violation is there)
here=$(cd "$(dirname "$0")" && pwd)
"$here/check.sh" --build || exit 2
profile=release
grep -q '"profile": "checked"' "$1" && profile=checked
exec "$here/sim/target/$profile/gsim" replay "$@"
