#!/bin/bash
# check.sh ID: builds the simulator with the current /repo sources and searches for a violation of the property.
# Exit 0: held. Exit 1: VIOLATION line printed. Anything else: the check itself failed.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
V=$(dirname "$(readlink -f "$0")")
ID=${1:?usage: check.sh ID}
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
mkdir -p "$V/build" "$V/evidence" "$V/replays"
rm -f "$V/evidence/$ID.json"
LOG=$(mktemp "$V/build/log.XXXXXX") || exit 3
if ! D=$("$V/sim/build.sh" 2>"$LOG"); then
    echo "error: build failed" >&2
    tail -n 30 "$LOG" >&2
    rm -f "$LOG"
    exit 3
fi
rm -f "$LOG"
# episodes of ten trials each: sized for about a minute on eight cores
case $ID in
C15) N=32000 ;;
C18) N=3200 ;;
C16|C09|C06) N=5600 ;;
*) N=8000 ;;
esac
WALL=420
if [ "$TIER" = thorough ]; then N=$((N * 20)) WALL=7000; fi
"$D/dasmsim" check "$ID" --seed "$SEED" --tier "$TIER" --episodes "${EPISODES:-$N}" --workers "${WORKERS:-0}" --wall "$WALL" \
    --evidence "$V/evidence/$ID.json" --replays "$V/replays" --known "$V/known_findings.txt"
s=$?
[ $s -le 1 ] && exit $s
exit 3
