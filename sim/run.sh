#!/bin/bash
# run.sh MODE SEED: one simulated run, with everything it finds and its statistics.
cd "$(dirname "$0")" || exit 2
B=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
bash ./build.sh "$B/verifsim" /repo || exit 2
mkdir -p "$B/cwd/data"; cd "$B/cwd" && ../verifsim run -mode "$1" -seed "$2"
