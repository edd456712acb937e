#!/bin/bash
# cwd: /repo. Builds main.rs against the crates found here and runs it; its exit code is the verdict.
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
[ -d /root/.cargo/bin ] && export PATH=/root/.cargo/bin:$PATH
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat >"$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
kompact = { path = "$R/core", features = ["distributed"] }
kompact-net = { path = "$R/network" }
[profile.dev]
debug = false
X
cd "$T" || exit 3
CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 3; }
timeout 90 "$T/target/debug/demo" 2>&1 | grep -aE "^[^A-Z]|^[A-Z][a-z]* [^0-9]" | tail -5 | cut -c1-300
exit "${PIPESTATUS[0]}"
