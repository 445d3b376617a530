#!/bin/bash
# replay.sh FILE: runs the execution recorded in a replay file again. Exit 1: the violation is reproduced exactly.
V=$(dirname "$(readlink -f "$0")")
D=$("$V/sim/build.sh" 2>/dev/null) || { echo "error: build failed" >&2; exit 3; }
exec "$D/dasmsim" replay "$1"
