#!/bin/bash
# ./check.sh <property> <tier>: decide one property on the crate in /repo's working tree.
cd "$(dirname "$0")" || exit 3
. ./lib.sh
build mc --release || exit 3
run_mc mc/target/release/mc "$1" "${2:-quick}"
