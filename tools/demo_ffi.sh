#!/bin/bash
# Builds and runs the small program beside this script against /repo; it keeps to the scratch directory it is given.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 99
trap 'rm -rf "$work"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$work/src" "$work/scratch" "$work/stormffi"
cat > "$work/stormffi/Cargo.toml" <<T
[package]
name = "stormffi"
version = "0.0.0"
edition = "2021"
[lib]
path = "/repo/storm-ffi/src/lib.rs"
[dependencies]
mopaq = { path = "/repo/mopaq" }
libc = "0.2"
log = "0.4"
md-5 = "0.10"
crc32fast = "1.4"
T
cp "$here/demo.rs" "$work/src/main.rs"
cp /repo/Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
mopaq = { path = "/repo/mopaq" }
stormffi = { path = "stormffi" }
bytes = "1"
[profile.dev]
opt-level = 1
T
cd "$work" || exit 99
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q 2>"$work/log" || { tail -20 "$work/log"; exit 98; }
exec 3>&-
timeout 120 "$work/target/debug/demo" "$work/scratch"
