#!/bin/bash
# replay.sh FILE: runs one replay file against /repo's working tree; exit 1 if it reproduces.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib.sh"
build_sim || exit 2
if declare -F build_bins >/dev/null; then build_bins && build_e2e && build_wlib && build_boot "${VERIF_SEED:-1}" || exit 2; fi
exec "$TARGET/release/lrpsim" replay "$1"
