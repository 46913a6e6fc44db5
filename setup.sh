#!/bin/bash
# setup.sh: builds everything once, which fills Go's build cache.
verif=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d "${TMPDIR:-/tmp}/zzbuild-XXXXXXXX") || exit 1
trap '/bin/rm -rf "$out"' EXIT
"$verif/build.sh" "$out"
