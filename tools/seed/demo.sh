#!/bin/bash
# Builds demo.rs (beside this script) against the crates in the current directory and runs it: exit 0 = property held.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/work"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
astro-run = { path = "$R/crates/astro-run" }
DEPS
tokio = { version = "1", features = ["full"] }
serde_json = "1"
parking_lot = "0.12"
EOF
export CARGO_TARGET_DIR=$T/target CARGO_NET_OFFLINE=true HOME_DEMO=$T/work
cd "$T" && cargo build -q --offline 2> "$T/build.log" || { tail -30 "$T/build.log"; exit 3; }
cd "$T/work" && timeout 120 "$T/target/debug/demo"
