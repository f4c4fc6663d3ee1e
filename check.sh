#!/bin/bash
# check.sh <property> [quick|thorough]: builds from /repo's working tree and runs the simulation.
# Exit 0 held, 1 violated (with a VIOLATION line), 2 no answer.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
"$V/build.sh" || exit 2
export JST_VERIF=$V
"$V/build/sim/debug/jstsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
