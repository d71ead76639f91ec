#!/bin/bash
# Build the symbolic executor (links the libz3 of the installed verification tools).
set -eu
cd "$(dirname "$0")"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR || true
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never RUSTFLAGS="-Awarnings -L $Z3 -C link-arg=-Wl,-rpath,$Z3"
exec cargo build --release --offline "$@"
