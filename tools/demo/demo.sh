#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: exit 0 if the property held.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$here/common.rs" "$d/src/"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sett-rs = { path = "$repo" }
config = { version = "0.13.3", features = ["json", "yaml", "toml"] }
[profile.release]
opt-level = 2
overflow-checks = true
T
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" cargo run --release --offline --quiet 2>&1 | tail -15
exit "${PIPESTATUS[0]}"
