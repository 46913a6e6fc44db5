#!/bin/bash
# replay.sh FILE: replays a violation against /repo's working tree and prints
# every event of it. Exit 1 if it still fails.
verif=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1") || exit 2
out=$(mktemp -d "${TMPDIR:-/tmp}/zzbuild-XXXXXXXX") || exit 2
trap '/bin/rm -rf "$out"' EXIT
"$verif/build.sh" "$out" || exit 2
"$out/zzcheck" -replay "$file" -v
