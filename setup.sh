#!/bin/bash
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cargo build --offline && cargo build --offline --manifest-path ../ct/Cargo.toml && cargo build --offline --manifest-path ../portable/Cargo.toml
