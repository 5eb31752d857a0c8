#!/bin/bash
# usage: check.sh ID quick|thorough   -- builds the monitors against /repo's working tree and runs one property
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=$1
TIER=${2:-quick}
export VERIF_DIR=$V VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
mkdir -p "$V/target"
LOG="$V/target/build-$ID.log"
build() { # crate dir, target dir, extra args
  local d=$1 t=$2
  shift 2
  (cd "$d" && CARGO_TARGET_DIR="$t" cargo "$@") >>"$LOG" 2>&1 && return 0
  echo "BUILD FAILED: $d ($*)"
  grep -E "^error" -A6 "$LOG" | head -60
  exit 2
}
: >"$LOG"
build "$V/harness" "$V/target" build --offline
[ -f "$V/extra/$ID.sh" ] && . "$V/extra/$ID.sh"
exec "$V/target/debug/mon" run "$ID" "$TIER" "$VERIF_SEED"
