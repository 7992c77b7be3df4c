#!/bin/bash
# replay.sh FILE: re-execute a replay file against /repo's working tree.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p build
(cd tools && go build -o ../build/dsim ./dsim) || exit 2
exec ./build/dsim replay "$f"
