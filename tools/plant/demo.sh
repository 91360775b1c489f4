#!/bin/bash
# Runs main.rs against the library in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" || exit 3
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
artlr_syntax = { path = "$repo" }
TOML
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_TARGET_DIR=$tmp/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$tmp" || exit 3
cargo build --offline --quiet 2> "$tmp/log" || { grep -m5 -A8 '^error' "$tmp/log"; exit 2; }
timeout 120 "$tmp/target/debug/demo"
