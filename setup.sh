#!/bin/bash
# Builds the framework once from the committed files (checks rebuild incrementally from /repo).
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
(cd harness && RUSTFLAGS="--cfg futures_verif -Awarnings" cargo build --offline --target-dir ../target/native) || exit 1
(cd miri && RUSTFLAGS="-Awarnings" MIRIFLAGS="" cargo +nightly miri run --offline --target-dir ../target/miri --bin m01) || exit 1
exit 0
