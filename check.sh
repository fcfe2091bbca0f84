#!/bin/bash
# check.sh ID: builds the simulator from /repo's working tree and decides property ID.
cd "$(dirname "$0")" || exit 2
if [ "$1" = C11 ] || [ "$1" = C24 ] || [ "$1" = C25 ]; then bash sim/build.sh dll || exit 2; exec ./build/simdll check "$1"; fi
bash sim/build.sh || exit 2
exec ./build/simspasm check "$1"
