#!/bin/bash
# build.sh OUT: builds the check program from /repo's working tree into OUT.
set -e
out=$1
verif=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$out"
cd "$verif/instr"
go build -o "$out/instr" .
"$out/instr" -src /repo -out "$out/src" -sim "$verif/sim/zz" >"$out/instr.log" 2>&1 || { rc=$?; cat "$out/instr.log" >&2; exit $rc; }
mod=$(sed -n 's/^module //p' /repo/go.mod)
mkdir -p "$out/src/zzsim/harness"
for f in "$verif"/harness/*.go; do
	sed "s|ZZMODULE|$mod|g" "$f" >"$out/src/zzsim/harness/$(basename "$f")"
done
cd "$out/src"
go build -o "$out/zzcheck" ./zzsim/harness
