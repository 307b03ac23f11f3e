#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds here; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "${d:?}"' EXIT
cp "$here"/main.rs "$here"/kit.rs "$d"/
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cp "$repo/Cargo.lock" "$d/" 2>/dev/null
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= DOCS_RS=1 CARGO_TARGET_DIR=$d/target TMPDIR=$d
cd "$d" || exit 2
cargo build --offline >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 2; }
"$d/target/debug/demo"
