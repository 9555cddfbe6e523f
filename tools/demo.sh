#!/bin/bash
# exit 0: the property holds here; anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tsfile-writer = { path = "$repo/tsfile-writer" }
T
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cd "$t" || exit 9
cargo build -q --release --offline 2> build.log || { tail -20 build.log; exit 9; }
mkdir out
./target/release/demo || exit 1
cp "$here/tsread.py" "$here/check.py" .
python3 check.py || exit 1
exit 0
