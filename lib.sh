# Shared by the check scripts.
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p evidence/replay

# build <crate dir> [cargo arguments]: release build against /repo's working tree
build() {
  local d=$1; shift
  (cd "$d" && cargo build --offline "$@") >evidence/build.log 2>&1 && return 0
  echo "build of $d failed:" >&2
  tail -40 evidence/build.log >&2
  return 1
}

# run_mc <binary> <property> <tier>: 0 held, 1 violated; dying in the code under test is a violation
run_mc() {
  local bin=$1 prop=$2 tier=$3
  rm -f "evidence/$prop.json" "evidence/replay/$prop.json"
  "$bin" check "$prop" "$tier" "$PWD/evidence"
  local rc=$?
  if [ $rc -ge 128 ]; then
    # killed by a signal: abort, stack overflow or memory exhaustion while exploring
    crashed "$prop" "$tier" "the checker process died with status $rc while running the code under test"
    return 1
  fi
  return $rc
}

# crashed <property> <tier> <what>: evidence and VIOLATION line when the checker could not write them itself
crashed() {
  printf '{"property": "%s", "why": "%s", "case": null, "replay": "run the check again"}\n' "$1" "$3" >"evidence/replay/$1.json"
  printf '{"property": "%s", "tier": "%s", "seed": %d, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["%s"], "exhaustive": false}, "wall_s": %d, "violations": 1}\n' "$1" "$2" "${VERIF_SEED:-1}" "$3" "$SECONDS" >"evidence/$1.json"
  echo "$3"
  echo "VIOLATION property=$1 replay=$PWD/evidence/replay/$1.json"
}
