#!/bin/bash
# Run in the repository: builds main.rs against it; exit 0 = the property holds on this input.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
[dependencies]
topogeo = { path = "$(pwd)" }
encoding = "0.2"
[workspace]
END
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline -q --manifest-path "$d/Cargo.toml" >"$d/log" 2>&1 || { cat "$d/log"; exit 2; }
timeout 100 "$d/target/debug/demo"
