# the same driver once per feature set, and twice more optimised without overflow checks
feat() { # target dir, profile directory, name, cargo arguments
  local t=$V/target-feat/$1 p=$2 n=$3
  shift 3
  (cd "$V/features" && CARGO_TARGET_DIR="$t" cargo build --offline "$@") >"$V/target/build-C29-$n.log" 2>&1 || return 1
  cp -f "$t/$p/feat" "$V/target-feat/feat-$n"
}
mkdir -p "$V/target-feat"
rm -f "$V"/target-feat/feat-*
(feat a debug plain && feat a debug serde --features serde && feat a debug hex --features hex) & pa=$!
(feat b debug strum --features strum && feat b debug arbitrary --features arbitrary && feat b debug all --features hex,strum,arbitrary) & pb=$!
(feat c release release --release) & pc=$!
(feat d release releaseall --release --features hex,strum,arbitrary) & pd=$!
rc=0
for p in $pa $pb $pc $pd; do wait "$p" || rc=1; done
if [ $rc != 0 ]; then
  for l in "$V"/target/build-C29-*.log; do grep -E "^error" -A6 "$l" | head -20; done
  echo "BUILD FAILED: features"
  exit 2
fi
export VERIF_FEAT=$V/target-feat
