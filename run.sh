#!/bin/bash
# run.sh ID: builds against /repo's working tree and runs the check of one property (VERIF_TIER, VERIF_SEED).
set -u
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" 9>&- || exit 2
# what grows without end fails, and is found, before it takes all the memory
ulimit -v 20000000 2>/dev/null
export VERIF_DIR="$here"
exec "$here/harness/target/release/vharness" run "$1"
