#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build from /repo's working tree, then explore.
cd "$(dirname "$0")" || exit 2
. ./env.sh
bash ./build.sh || { echo "BUILD FAILED"; exit 2; }
exec "$CARGO_TARGET_DIR/release/mc" "$1" "${2:-${VERIF_TIER:-quick}}"
