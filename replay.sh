#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's working tree; exit 1 if the violation happens again.
F=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
V=$PWD
B=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
if ! bash sim/build.sh "$B/verifsim" /repo > "$B/log" 2>&1; then tail -50 "$B/log" >&2; exit 2; fi
VERIF_KNOWN=$V/known_findings.txt "$B/verifsim" replay "$F"
exit $?
