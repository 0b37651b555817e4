#!/bin/bash
# check.sh PROPERTY: decide one property for /repo's current working tree (VERIF_TIER, VERIF_SEED).
cd "$(dirname "$0")/sim" || exit 3
./build.sh >target-build.log 2>&1 || { cat target-build.log; echo "the simulator does not build"; exit 3; }
exec target/debug/simw check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}"
