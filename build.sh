#!/bin/bash
# Build the simulator against /repo's current working tree (offline).
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true SIDERUST_JPL_STUB=all CARGO_TARGET_DIR="$here/target" CARGO_INCREMENTAL=1
export RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$here/sim" || exit 2
out=$(cargo build --offline "$@" 2>&1) || { echo "$out" | grep -E "^(error|warning: unused)|^ *-->" -A6 | tail -60; echo "$out" | tail -5; exit 2; }
