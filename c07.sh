#!/bin/bash
# ./c07.sh C07 <tier> | ./c07.sh replay <file>
cd "$(dirname "$0")" || exit 3
. ./lib.sh
T=x86_64-unknown-linux-gnu
mkdir -p c07/target
rustc --edition 2021 -O --crate-type rlib --crate-name ttstd c07/ttstd/lib.rs -o c07/target/libttstd.rlib >evidence/build.log 2>&1 || { cat evidence/build.log >&2; exit 3; }
export RUSTFLAGS="--cfg ttgraph_mc --extern ttstd=$PWD/c07/target/libttstd.rlib"
build c07 --release --target $T || exit 3
unset RUSTFLAGS
BIN=c07/target/$T/release/c07
if [ "$1" = replay ]; then $BIN replay "$2"; exit; fi
run_mc $BIN C07 "${2:-quick}"
rc=$?
[ $rc = 0 ] || exit $rc
# the scheduler does not see unsynchronised sharing: look for it in a free run of the same threads
(cd c07 && MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" timeout 400 cargo +nightly miri run --offline --target-dir target/miri) >evidence/miri.log 2>&1
if grep -qE "Data race detected|FREE RUN:" evidence/miri.log; then
  grep -E "Data race detected|FREE RUN:" evidence/miri.log | head -3
  crashed C07 "${2:-quick}" "data race between threads that share a context (Miri)"
  cp evidence/miri.log evidence/replay/C07.miri.log
  exit 1
fi
grep -q "free run ok" evidence/miri.log || { echo "the run under Miri gave no answer:" >&2; tail -20 evidence/miri.log >&2; exit 3; }
