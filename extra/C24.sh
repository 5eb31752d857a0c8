# instrumented builds of the monitors: one directory and log per tool, built at the same time
san() { # name, sanitizer flags, extra cargo arguments
  local n=$1 f=$2
  shift 2
  (cd "$V/harness" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="$f -Awarnings" CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_PROFILE_DEV_DEBUG=0 \
    CARGO_TARGET_DIR="$V/target-san/$n" cargo build --offline --target x86_64-unknown-linux-gnu "$@") >"$V/target/build-C24-$n.log" 2>&1
}
rc=0
san address "-Zsanitizer=address" & pa=$!
san thread "-Zsanitizer=thread" -Zbuild-std & pt=$!
san memory "-Zsanitizer=memory" -Zbuild-std & pm=$!
(cd "$V/harness" && env -u RUSTUP_TOOLCHAIN RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$V/target-san/miri" MIRIFLAGS=-Zmiri-disable-isolation \
  cargo +nightly miri run --offline --quiet -- child exercise 1 0 1) >"$V/target/build-C24-miri.log" 2>&1 & pi=$!
for p in "$pa:address" "$pt:thread" "$pm:memory" "$pi:miri"; do
  if ! wait "${p%%:*}"; then
    echo "BUILD FAILED: ${p##*:}"
    grep -E "^error" -A6 "$V/target/build-C24-${p##*:}.log" | head -20
    rc=1
  fi
done
[ $rc = 0 ] || exit 2
B=x86_64-unknown-linux-gnu/debug/mon
export VERIF_SAN_ADDRESS=$V/target-san/address/$B VERIF_SAN_THREAD=$V/target-san/thread/$B VERIF_SAN_MEMORY=$V/target-san/memory/$B
export VERIF_MIRI=$V/target-san/miri
[ "$TIER" = quick ] && export VERIF_BUDGET_S=${VERIF_BUDGET_S:-260}
