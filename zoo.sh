#!/bin/bash
# ./zoo.sh C14|C15|C17|C19 <tier>: families of declarations, generated, compiled against /repo's working tree and explored.
# ./zoo.sh replay <file>
cd "$(dirname "$0")" || exit 3
. ./lib.sh
if [ "$1" = replay ]; then
  P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"].lower())' "$2") || exit 3
  [ $P = c19 ] && P=c14
  exec zoo/$P/target/release/$P replay "$2"
fi
PROP=$1 TIER=${2:-quick}
P=${PROP,,}
[ $P = c19 ] && P=c14
python3 gen/$P.py "$TIER" >&2 || exit 3
if ! build zoo/$P --release; then
  # the checker itself builds? then it is the declarations, all of a documented form, that no longer do
  cp evidence/build.log evidence/replay/$PROP.build.log
  build mc --release --no-default-features --features debug --lib || exit 3
  crashed "$PROP" "$TIER" "declarations of a documented form are not accepted any more (see $PROP.build.log)"
  exit 1
fi
run_mc zoo/$P/target/release/$P "$PROP" "$TIER"
