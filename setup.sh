#!/bin/bash
# Builds everything the checks use, so that each check finds it built.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib.sh"
build_sim || exit 1
if declare -F build_bins >/dev/null; then build_bins && build_e2e && build_wlib && build_boot "${VERIF_SEED:-1}" || exit 1; fi
echo "built"
