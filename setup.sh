#!/bin/bash
# Builds the simulator, with and without the library's trace feature.
here=$(cd "$(dirname "$0")" && pwd)
"$here/sim/build.sh" && "$here/sim/build.sh" trace
