#!/bin/bash
# Generates the modules of main.rs's grammar with the crate in the current directory, puts them
# beside the shipped TypeScript runtime and compares the types listed in main.rs with check.cjs.
set -e
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src" "$work/ts"
cp "$repo"/ts/*.ts "$work/ts/"
cp "$here/main.rs" "$work/demo/src/main.rs"
cat > "$work/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
typelalr = { path = "$repo" }
bumpalo = "3.11.0"
regex-syntax = "0.6.27"
lalrpop-util = "0.19.8"
[workspace]
T
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/demo/Cargo.lock"
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS
(cd "$work/demo" && cargo build --offline --quiet 2>"$work/build.log") || { tail -30 "$work/build.log"; exit 1; }
timeout 60 "$work/target/debug/demo" "$work/ts" >/dev/null || exit 1
node --stack-size=4000 "$here/check.cjs" "$work/ts"
