#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]: rebuild from /repo's working tree, then search.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export UR20SIM_ROOT=$here
if [ $# -gt 1 ]; then export VERIF_TIER=$2; fi
"$here/build.sh" || { echo "BUILD-ERROR: the simulator does not build against /repo" >&2; exit 2; }
exec "$here/sim/target/release/ur20sim" check "$1"
