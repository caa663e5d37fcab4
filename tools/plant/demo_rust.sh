#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
set -e
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src" "$work/run"
cp "$here/main.rs" "$work/demo/src/main.rs"
cat > "$work/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
typelalr = { path = "$repo" }
bumpalo = "3.11.0"
regex-syntax = "0.6.27"
lalrpop-util = "0.19.8"
[workspace]
T
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/demo/Cargo.lock"
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS
(cd "$work/demo" && cargo build --offline --quiet 2>"$work/build.log") || { tail -30 "$work/build.log"; exit 1; }
cd "$work/run"
set +e
timeout 120 "$work/target/debug/demo" >"$work/out.txt" 2>"$work/err.txt"
rc=$?
tail -c 600 "$work/err.txt"
echo "demo exit $rc"
[ $rc -eq 0 ] || exit 1
