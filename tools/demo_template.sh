#!/bin/bash
# Builds demo.rs (beside this file) against the hexodsp crate in the current
# directory and runs it; everything is written to a scratch directory.
repo=$PWD
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$repo" || exit 3
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$d/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock.saved "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
hexodsp = { path = "$repo" }
[workspace]
T
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" cargo build --offline >"$w/build.log" 2>&1 || { tail -30 "$w/build.log"; exit 3; }
timeout 120 "$w/target/debug/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: property holds" || echo "demo: property BROKEN (rc=$rc)"
exit $rc
