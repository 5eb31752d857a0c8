#!/bin/bash
# seed.sh ID: turns the edits in /tmp/w (a copy of /repo) plus seeded/ID/demo.rs into a confirmed planted bug.
W=${W:-/tmp/w}; id=$1; d=/verif/seeded/$id
[ -f $d/demo.rs ] || { echo "no demo.rs"; exit 1; }
cp /verif/tools/demo.sh $d/demo.sh
cp /verif/tools/demo.lock $d/Cargo.lock
git -C $W diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "$id: empty patch"; exit 1; }
git -C /repo apply --check $d/patch.diff || { echo "$id: does not apply"; exit 1; }
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
cd $W
cargo test --workspace --all-features --offline -- --test-threads 8 > /tmp/seed.$id.log 2>&1; t=$?
(cd /repo && bash $d/demo.sh > /tmp/seed.$id.clean 2>&1); a=$?
bash $d/demo.sh > /tmp/seed.$id.bug 2>&1; b=$?
git -C $W checkout -q -- .
if [ $t = 0 ] && [ $a = 0 ] && [ $b != 0 ] && ! grep -q "^error" /tmp/seed.$id.bug; then echo "$id: CONFIRMED"; else
 echo "$id: NOT OK tests=$t clean=$a bug=$b"; grep -E "FAILED|failed|^error" /tmp/seed.$id.log | head; tail -n 5 /tmp/seed.$id.clean /tmp/seed.$id.bug; fi
