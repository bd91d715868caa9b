#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator against /repo's working tree and searches for violations.
cd "$(dirname "$0")" || exit 2
V=$PWD
B=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
if ! bash sim/build.sh "$B/verifsim" /repo > "$B/log" 2>&1; then tail -50 "$B/log" >&2; echo "cannot build the simulator" >&2; exit 2; fi
mkdir -p evidence
VERIF_KNOWN=$V/known_findings.txt VERIF_EVIDENCE=$V/evidence "$B/verifsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
exit $?
