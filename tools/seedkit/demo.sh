#!/bin/bash
# Builds demo.rs against the ckb-vm in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=1.81.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$d/demo.rs" "$t/src/main.rs"
cp "$d/h.rs" "$t/src/h.rs"
cp "$d/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ckb-vm = { path = "$repo", features = ["asm"] }
[workspace]
[profile.release]
opt-level = 1
EOF
cd "$t" || exit 3
cargo build -q --release --offline --target-dir "$t/target" || exit 4
timeout 120 "$t/target/release/demo"
