#!/bin/bash
# Builds the fact extractor with the nightly toolchain into $1 (a target dir).
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS= RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER=
CARGO_TARGET_DIR="$1" cargo build --offline -q
