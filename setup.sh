#!/bin/bash
# Builds every harness crate once; checks rebuild what they need themselves.
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
for c in h-*; do (cd "$c" && cargo build --offline --bins) || exit 1; done
