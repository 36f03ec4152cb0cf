#!/bin/bash
# tools/seeds.sh [id...]: run each seeded bug's own quick check against it (development only; no check reads seeded/).
# With PROPS="C01 C02" those properties' checks are run instead.
cd "$(dirname "$0")/.." || exit 3
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 3; }
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for q in ${PROPS:-$p}; do
    cmd=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('MANIFEST.json'))['checks'] if c['property']=='$q'][0])" 2>/dev/null)
    [ -n "$cmd" ] || { echo "$id [$p] $q: no check"; continue; }
    s=$SECONDS
    out=$(VERIF_SEED=1 VERIF_TIER=quick bash -c "$cmd" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$q" <<<"$out"; then r=CAUGHT; elif [ $rc = 0 ]; then r=missed; else r="error rc=$rc"; fi
    echo "$id [$p] $q: $r ($((SECONDS-s)) s) $(grep -v VIOLATION <<<"$out" | tail -2 | head -1 | cut -c1-160)"
  done
  git -C /repo checkout -q -- .
done
