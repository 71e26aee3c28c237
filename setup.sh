#!/bin/bash
# Builds the MIR dump driver (offline, nightly toolchain with rustc-dev).
set -e
cd "$(dirname "$0")/driver"
cargo +nightly build --release --offline
