#!/bin/bash
# Builds the monitors once, to show that the framework builds offline from the committed files.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
unset RUSTFLAGS
mkdir -p target
cd harness && CARGO_TARGET_DIR=../target cargo build --offline 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
