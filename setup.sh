#!/bin/bash
# Builds the harness once, offline, so that a broken toolchain shows here and not in a check.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
mkdir -p build
cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --features deep,wopc --target-dir build/harness
