#!/bin/bash
# Rebuilds the harness against /repo's working tree and decides one property: check.sh <ID> [quick|thorough] [--case N]
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD" RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VERIF_REPO="${VERIF_REPO:-/repo}"
export CARGO_TARGET_DIR="$PWD/target"
id=$1; shift
case "${1:-}" in quick|thorough) export VERIF_TIER=$1; shift;; esac
log="$PWD/target/build-$id.log"; mkdir -p target evidence replays
if ! cargo build --offline --locked --release -q --manifest-path harness/Cargo.toml >"$log" 2>&1; then
  cat "$log"
  # Components which cannot be used from other threads: the compiler decides that.
  if [ "$id" = R01 ] && grep -qE '^error\[E0277\].*cannot be (sent|shared) between threads safely' "$log"; then
    echo "VIOLATION property=R01 replay=$log"; exit 1
  fi
  echo "BUILD FAILED (no verdict on $id)"; exit 2
fi
case "$id" in
  S*) exec flock "$PWD/target/ports.lock" target/release/verif "$id" "$@";;
  *) exec target/release/verif "$id" "$@";;
esac
