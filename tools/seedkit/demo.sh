#!/bin/bash
# Builds the program beside this script against /repo and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR
mkdir "$T/p" && cp -r "$D/Cargo.toml" "$D/Cargo.lock" "$D/src" "$T/p/"
cd "$T/p"
cargo build -q --offline --target-dir "$T/t" 2>"$T/log" || { cat "$T/log"; exit 3; }
timeout 120 "$T/t/debug/demo"
