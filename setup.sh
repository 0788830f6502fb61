#!/bin/bash
# Everything is built by the checks themselves, from /repo's tree at that time. This only shows early
# that the tools are there and that the harness builds.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH
cargo +stable --version
cargo +nightly --version
valgrind --version
python3 --version
cd harness
CARGO_TARGET_DIR=../target RUSTFLAGS="--cfg husk_verif" cargo +stable build --offline --lib 2>&1 | tail -1
