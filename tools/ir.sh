#!/bin/bash
# Compiles the harness crate together with /repo's current source to one LLVM IR module.
set -e
cd /verif/harness
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=/verif/build/ir
cargo rustc --release --offline --lib --crate-type cdylib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp 2>&1 | tail -${LINES_OUT:-30}
