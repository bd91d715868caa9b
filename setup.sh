#!/bin/bash
# Checks that everything the checks need is here, by building the simulator once.
cd "$(dirname "$0")" || exit 2
B=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
bash sim/build.sh "$B/verifsim" /repo || exit 2
mkdir -p evidence
echo ok
