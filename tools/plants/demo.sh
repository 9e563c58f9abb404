#!/bin/bash
# exit 0 when the property holds; run in the repository after its build
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$d/target}" RUSTFLAGS="-C target-cpu=x86-64-v3 @CFG@"
mkdir -p "$d/src"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cp "$here/demo.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
panacea = { path = "$repo" }
concrete-core = { version = "1.0.2", features = ["x86_64", "__private_docs"] }
rayon = "1.8.0"
serde_json = "1.0.108"
serde = "1.0.192"
[profile.dev]
opt-level = 2
debug = false
T
cd "$d" || exit 3
cargo build --offline -q 2>"$d/log" || { tail -n 30 "$d/log"; exit 4; }
@RUN@
