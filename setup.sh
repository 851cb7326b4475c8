#!/bin/bash
# builds the MIR fact extractor offline
set -e
cd "$(dirname "$0")/driver"
cargo +nightly build --release --offline -q
