#!/bin/bash
# ./nodebug.sh C16 <tier>: the crate in its other configurations.
cd "$(dirname "$0")" || exit 3
. ./lib.sh
TIER=${2:-quick}
if ! build mc --profile prod --no-default-features --features core; then
  # does it build as it is used by default? then the configuration is what is broken
  cp evidence/build.log evidence/replay/C16.build.log
  build mc --release || exit 3
  crashed C16 "$TIER" "the crate, or code that uses its macros, does not build without the feature debug (see C16.build.log)"
  exit 1
fi
cp mc/target/prod/mc mc/target/prod/mc-nodebug
run_mc mc/target/prod/mc-nodebug C16 "$TIER"
rc=$?
[ $rc = 0 ] || exit $rc
cp evidence/C16.json evidence/C16.first.json
build mc --profile prod || exit 3
run_mc mc/target/prod/mc C16 "$TIER"
rc=$?
[ $rc = 0 ] || { rm -f evidence/C16.first.json; exit $rc; }
# one evidence file for both
python3 - <<'P' || exit 3
import json
a, b = json.load(open('evidence/C16.first.json')), json.load(open('evidence/C16.json'))
c, d = a['coverage'], b['coverage']
for k in ('states', 'transitions', 'traces_validated_against_impl'):
    d[k] += c[k]
for p in c['parts']:
    p['name'] = 'without debug: ' + p['name']
for p in d['parts']:
    p['name'] = 'with debug, no assertions: ' + p['name']
d['parts'] = c['parts'] + d['parts']
d['exhaustive'] = d['exhaustive'] and c['exhaustive']
b['wall_s'] += a['wall_s']
json.dump(b, open('evidence/C16.json', 'w'), indent=1)
P
rm -f evidence/C16.first.json
