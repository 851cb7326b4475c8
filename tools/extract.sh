#!/bin/bash
# extract facts: $1 src, $2 outdir
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
mkdir -p $2; rm -rf /tmp/xt
MIRFACTS_OUT=$2 RUSTC_WORKSPACE_WRAPPER=/verif/driver/target/release/mirfacts CARGO_TARGET_DIR=/tmp/xt cargo +nightly check --offline --manifest-path $1/Cargo.toml
