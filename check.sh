#!/bin/bash
# check.sh ID TIER: builds against /repo's working tree and searches.
here=$(cd "$(dirname "$0")" && pwd)
"$here/sim/build.sh" || { echo "the build failed" >&2; exit 2; }
export SIM_VERIF=$here SIM_CHECKED=$here/build/debug/harness SIM_OPTIMISED=$here/build/release/harness SIM_PROBED=$here/build/probe/debug/harness
exec "$SIM_OPTIMISED" check "$1" "${2:-${VERIF_TIER:-quick}}"
