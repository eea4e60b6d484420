#!/bin/bash
# Builds the harness from /repo's current working tree. Usage: build.sh
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.91.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL
cd /verif/harness || exit 3
exec cargo build --offline  --target-dir /verif/.build "$@"
