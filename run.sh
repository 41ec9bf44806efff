#!/bin/bash
# Usage: run.sh ID [vharness options]. Rebuilds the harness from /repo's
# working tree and runs the check of one property.
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$PWD; export VERIF_DIR
. ./build.sh || exit 2
exec "$CARGO_TARGET_DIR/debug/vharness" "$@"
