#!/bin/bash
# run.sh check <ID>     build from the working tree of /repo and check one property (VERIF_SEED, VERIF_TIER)
# run.sh replay <file>  build and re-execute a recorded failing run
# run.sh setup          warm the build cache
# Any trouble in here ends with an exit code other than 0 and 1.
set -uo pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t0=$(date +%s.%N)
if ! bash "$HERE/sim/build.sh" "$W" >"$W/build.log" 2>&1; then
	cat "$W/build.log" >&2
	echo "run.sh: build failed" >&2
	exit 2
fi
built=$(echo "$(date +%s.%N) $t0" | awk '{print $1-$2}')
case "${1:-}" in
setup)
	echo "built in ${built}s"
	exit 0
	;;
check)
	ID=${2:?property}
	TIER=${VERIF_TIER:-quick}
	[ "$TIER" = thorough ] || TIER=quick
	LIM=600
	[ "$TIER" = thorough ] && LIM=850
	rm -f "$HERE/evidence/$ID.json"
	timeout -k 10 "$LIM" "$W/harness" check -prop "$ID" -seed "${VERIF_SEED:-1}" -tier "$TIER" -known "$HERE/known-findings.txt" -out "$HERE/out" \
		-evidence "$HERE/evidence/$ID.json" -tmp "$W" -built "$built" ${VERIF_ARGS:-}
	rc=$?
	;;
replay)
	timeout -k 10 300 "$W/harness" replay "${@:2}"
	rc=$?
	;;
*)
	echo "usage: run.sh check <ID> | replay <file> | setup" >&2
	rc=2
	;;
esac
[ "$rc" = 0 ] || [ "$rc" = 1 ] || { echo "run.sh: check error ($rc)" >&2; exit 2; }
exit "$rc"
