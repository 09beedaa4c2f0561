#!/bin/bash
# Builds the contract drivers (and with them all dependencies) from /repo's current tree, offline.
cd "$(dirname "$0")/../harness" || exit 1
export PATH=/root/.cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
cargo build --offline --locked -p drivers --bins || echo "drivers do not build against this tree; the checks will say so"
verus --version >/dev/null || exit 1
mkdir -p ../build ../evidence
