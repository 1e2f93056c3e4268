#!/bin/bash
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=1.91.0 CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
args=(build --offline -q)
cargo "${args[@]}" || exit 2
cargo "${args[@]}" -p sdkcheck || true
cargo "${args[@]}" -p clicheck || true
. ./asan.env
cargo "${args[@]}"
