#!/bin/bash
# Builds demo.rs against the crates in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/scratch"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ssbh_lib = { path = "$repo/ssbh_lib", features = ["serde", "serde_hex"], default-features = false }
ssbh_data = { path = "$repo/ssbh_data", features = ["serde"] }
ssbh_write = { path = "$repo/ssbh_write" }
binrw = "0.14"
half = "2"
serde_json = "1"
[profile.dev]
debug = 0
T
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS
cd "$d/scratch" && (cd "$d" && cargo build -q --offline) && REPO="$repo" timeout 120 "$d/target/debug/demo"
