#!/bin/bash
# run.sh <property> <quick|thorough> [--replay FILE]
# Builds the harness against /repo's working tree and checks one property.
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 could not be decided.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1 tier=$2
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
scratch=$(mktemp -d /tmp/verif-run-XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
cd "$here/harness" || exit 2
race=()
if [ "$id" = P19 ]; then export CGO_ENABLED=1; race=(-race); fi
go test -c "${race[@]}" -o "$scratch/harness.test" . >"$scratch/build.log" 2>&1 || {
	cat "$scratch/build.log"; echo "HARNESS-ERROR: the harness does not build against /repo"; exit 2; }
args=(-test.run "^Test$id\$" -test.timeout 0 -verif.tier "$tier" -verif.seed "${VERIF_SEED:-1}"
	-verif.known "$here/known_findings.txt" -verif.replaydir "$here/replay" -verif.evidence "$here/evidence/$id.json")
if [ "${3:-}" = --replay ]; then
	args+=(-verif.replay "$(cd - >/dev/null; readlink -f "$4")")
elif [ "$tier" = thorough ] && [ "$id" != P19 ]; then
	go test -c -fuzz "^Fuzz$id\$" -o "$scratch/fuzz.test" . >"$scratch/build.log" 2>&1 || {
		cat "$scratch/build.log"; exit 2; }
	args+=(-verif.fuzzbin "$scratch/fuzz.test" -verif.fuzztime "${VERIF_FUZZTIME:-120s}")
fi
mkdir -p "$here/evidence"
cd "$scratch" && "$scratch/harness.test" "${args[@]}" ${VERIF_ARGS:-}
rc=$?
[ $rc -le 1 ] || rc=2
exit $rc
