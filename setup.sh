#!/bin/bash
# Builds the driver and the simulator binaries once, to warm the build cache.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p build
(cd tools && go build -o ../build/dsim ./dsim) || exit 2
d=$(mktemp -d) || exit 2
./build/dsim build "$d" race; rc=$?
rm -rf "$d"
exit $rc
