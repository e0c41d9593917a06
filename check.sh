#!/bin/bash
# check.sh <property> [quick|thorough]
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT="$HERE"
bash "$HERE/build.sh" || { echo "the model checker does not build against /repo"; exit 2; }
exec "$HERE/target/release/orchard-mc" "$1" "${2:-${VERIF_TIER:-quick}}"
