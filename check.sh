#!/bin/bash
# check.sh ID [quick|thorough]: decide one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p build
bin=build/dsim.$$
trap 'rm -f "$bin"' EXIT
(cd tools && go build -o "../$bin" ./dsim) || { echo "check.sh: cannot build the driver"; exit 2; }
"./$bin" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
