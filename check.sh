#!/bin/bash
# check.sh <property> <tier>: build against /repo's working tree, then simulate
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec sim/target/release/sim check "$1" --tier "$2" --seed "${VERIF_SEED:-1}" --home "$PWD"
