#!/bin/bash
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/verif/.build/extract CARGO_NET_OFFLINE=true
cd "$(dirname "$0")" && cargo build --offline "$@"
