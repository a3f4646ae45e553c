#!/bin/bash
# replay.sh <FILE>: execute a replay file against /repo's working tree.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export UR20SIM_ROOT=$here
"$here/build.sh" || exit 2
exec "$here/sim/target/release/ur20sim" replay "$1"
