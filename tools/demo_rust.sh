#!/bin/bash
# Builds and runs the small program beside this script against /repo; it keeps to the scratch directory it is given.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 99
trap 'rm -rf "$work"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$work/src" "$work/scratch"
cp "$here/demo.rs" "$work/src/main.rs"
cp /repo/Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
mopaq = { path = "/repo/mopaq" }
bytes = "1"
[profile.dev]
opt-level = 1
T
cd "$work" || exit 99
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q 2>"$work/log" || { tail -20 "$work/log"; exit 98; }
exec 3>&-
timeout 120 "$work/target/debug/demo" "$work/scratch"
