#!/bin/bash
# Builds main.rs (beside this file) against the crates of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
spake2 = { path = "$repo/spake2" }
srp = { path = "$repo/srp" }
aucpace = { path = "$repo/aucpace", features = ["alloc", "partial_augmentation", "strong_aucpace", "serde"] }
curve25519-dalek = { version = "4", features = ["digest", "rand_core"] }
rand_core = { version = "0.6", features = ["getrandom"] }
password-hash = { version = "0.5", features = ["rand_core"] }
sha1 = "0.10"
sha2 = "0.10"
digest = "0.10"
num-bigint = "0.4"
hkdf = "0.12"
postcard = "1"
[profile.dev]
opt-level = 1
debug = false
[workspace]
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet 2> build.log || { cat build.log; exit 2; }
timeout 200 "$d/target/debug/demo"
