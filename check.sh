#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--case N] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PATH="/usr/local/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
[ -d evidence ] || mkdir -p evidence
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=$PWD/target/tools cargo build -q --offline --manifest-path harness/vmc/Cargo.toml >&2 || exit 2
if [ "$1" = --setup ]; then target/tools/debug/vmc C17 --tier quick; exit 0; fi
exec target/tools/debug/vmc "$@"
