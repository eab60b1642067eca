#!/bin/bash
# Builds every check from the committed files (checks rebuild what they need anyway).
cd "$(dirname "$0")" || exit 3
export CARGO_TARGET_DIR=$PWD/harness/target CARGO_NET_OFFLINE=true
cargo build --release --offline --manifest-path harness/Cargo.toml
