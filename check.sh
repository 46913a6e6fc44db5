#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo's working tree and decides
# the property. VERIF_SEED seeds the search, VERIF_TIER selects how long.
t0=$(date +%s%3N)
prop=$1
verif=$(cd "$(dirname "$0")" && pwd)
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
case $tier in
thorough) budget=${ZZ_BUDGET:-600s} ;;
*) tier=quick budget=${ZZ_BUDGET:-45s} ;;
esac
out=$(mktemp -d "${TMPDIR:-/tmp}/zzbuild-XXXXXXXX") || exit 2
trap '/bin/rm -rf "$out"' EXIT
if ! "$verif/build.sh" "$out" >"$out/build.log" 2>&1; then
	cat "$out/build.log" >&2
	echo "TROUBLE: cannot build the simulator from /repo" >&2
	exit 2
fi
mkdir -p "$verif/evidence" "$verif/replays"
"$out/zzcheck" -prop "$prop" -tier "$tier" -seed "$seed" -budget "$budget" \
	-evidence "$verif/evidence/$prop.json" -replays "$verif/replays" \
	-known "$verif/known_findings.txt" -t0 "$t0"
rc=$?
case $rc in
0 | 1) exit $rc ;;
*) exit 2 ;;
esac
