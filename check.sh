#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's working tree and runs one
# property's search. Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib.sh"
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
mkdir -p "$here/evidence"
rm -f "$here/evidence/$prop.json"
build_sim || exit 2
case $prop in C12|C13|C14|C15|C19|C21|C23) build_bins || exit 2 ;; C24) build_bins && build_wlib || exit 2 ;; C22) build_bins && build_e2e || exit 2 ;; C25) build_bins && build_boot "$seed" || exit 2 ;; esac
"$TARGET/release/lrpsim" run "$prop" "$tier" "$seed" "$here/evidence/$prop.json" "$here/replays"
code=$?
exit $code
