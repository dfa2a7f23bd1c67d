#!/bin/bash
# Builds the little program beside this file against /repo and runs it: 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
( . /opt/vp/env.sh ) || exit 2
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$here/Cargo.toml.txt" "$scratch/Cargo.toml"
cp /opt/vp/ws/Cargo.lock "$scratch/Cargo.lock"
cd "$scratch" || exit 2
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.72 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$scratch/target RUSTFLAGS=-Awarnings CARGO_PROFILE_DEV_DEBUG=0 RUST_BACKTRACE=0
unset CARGO_INCREMENTAL
cargo build --offline -q || exit 3
timeout 200 "$scratch/target/debug/demo" "$scratch"
