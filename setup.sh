#!/bin/bash
# Builds the harness, the server and the sanitizer variants, offline.
set -u
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$PWD/target"
mkdir -p target evidence replays
cargo build --offline --locked --release -q --manifest-path harness/Cargo.toml || exit 1
exit 0
