#!/bin/bash
# Usage: run.sh ID|--build-only|replay FILE   (tier: VERIF_TIER=quick|thorough, seed: VERIF_SEED)
# Builds the explorer against the current working tree of /repo, then explores one property.
# Exit 0: held on everything explored; 1: violation; anything else: error of the check.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${FINDEX_REPO:-/repo}
TARGET=${FMC_TARGET:-$ROOT/target}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$ROOT/out" "$ROOT/evidence" "$TARGET"

# $1: build directory, $2: flags
build() {
  local dir=$1 flags=$2 stamp hash log
  mkdir -p "$dir"
  stamp=$dir/source.stamp
  # Cargo compares modification times; the content decides here.
  hash=$(cd "$REPO" && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  hash2=$(cd "$ROOT/harness" && find src Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" = "$hash$hash2" ] && [ -x "$dir/release/fmc" ]; then return 0; fi
  rm -f "$stamp"
  log=$dir/build.log
  (
    cd "$ROOT/harness" || exit 2
    RUSTFLAGS="$flags" cargo clean --release --offline --target-dir "$dir" -p cosmian_findex -p fmc >/dev/null 2>&1
    RUSTFLAGS="$flags" cargo build --release --offline --locked --target-dir "$dir"
  ) >"$log" 2>&1 || { grep -E '^error' -A8 "$log" | head -60 >&2; echo "BUILD FAILED (see $log)" >&2; return 1; }
  echo "$hash$hash2" >"$stamp"
}

NORMAL="--cfg findex_verif"
SMALL="--cfg findex_verif --cfg findex_verif_small_batch"
exec 9>"$TARGET/lock"
flock 9

case "${1:-}" in
  --build-only)
    build "$TARGET/normal" "$NORMAL" && build "$TARGET/small" "$SMALL" || exit 2
    exit 0 ;;
  replay)
    if grep -q '"small_batch": true' "$2"; then D=small F=$SMALL; else D=normal F=$NORMAL; fi
    build "$TARGET/$D" "$F" || exit 2
    exec 9>&-
    exec "$TARGET/$D/release/fmc" replay "$2" ;;
esac

ID=$1
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
# Properties with phases about compactions that span several batches (see DESIGN.md).
case $ID in
  C05|C06|C10) BATCH=1 ;;
  *) BATCH=0 ;;
esac
build "$TARGET/normal" "$NORMAL" || exit 2
[ $BATCH = 1 ] && { build "$TARGET/small" "$SMALL" || exit 2; }
exec 9>&-
PART=$ROOT/out/$ID.part.json
rm -f "$PART"
# $1: build, other arguments: options. An abort of the process (stack overflow) is a violation as well:
# the phase is explored again with one worker to record which execution it is.
explore() {
  local fmc=$TARGET/$1/release/fmc rc phase
  shift
  "$fmc" check "$ID" --tier "$TIER" --seed "$SEED" --root "$ROOT" "$@"
  rc=$?
  if [ $rc = 134 ] || [ $rc = 139 ]; then
    phase=$(cat "$ROOT/out/$ID.phase")
    FMC_JOURNAL=1 "$fmc" check "$ID" --tier "$TIER" --seed "$SEED" --root "$ROOT" --exact-phase "$phase" --workers 1 --budget 300
    rc=$?
    if [ $rc = 134 ] || [ $rc = 139 ]; then
      "$fmc" aborted "$ID" --tier "$TIER" --seed "$SEED" --root "$ROOT"
      echo "phase $phase: the process aborts"
      echo "VIOLATION property=$ID replay=$ROOT/out/replay/$ID-${phase//[ \/]/_}.json"
      exit 1
    fi
    [ $rc = 0 ] && rc=2
  fi
  return $rc
}
if [ $BATCH = 1 ]; then
  explore small --part "$PART" || exit $?
  explore normal --merge "$PART"
else
  explore normal
fi
exit $?
