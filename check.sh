#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator against /repo's working tree and explores.
# check.sh replay FILE: replays a recorded violation.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here" VERIF_SEED="${VERIF_SEED:-1}" RUST_BACKTRACE=0
T=x86_64-unknown-linux-gnu/release/jpsim
plain="$here/target/$T"
"$here/sim/build.sh" || exit 2
bin="$plain"
prop="$1"
[ "$1" = replay ] && prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -n 1)
if [ "$prop" = C14 ]; then
  "$here/sim/build.sh" trace || exit 2
  bin="$here/target-trace/$T"
  export JPSIM_PLAIN="$plain"
fi
[ "$1" = replay ] && exec "$bin" replay "$2"
tier="${2:-${VERIF_TIER:-quick}}"
exec "$bin" check "$1" "$tier"
