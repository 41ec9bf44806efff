#!/bin/bash
# Builds and runs main.rs against the working tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/data"
cp "$here/main.rs" "$t/src/main.rs"
sed "s#@REPO@#$repo#g" "$here/deps.toml" > "$t/Cargo.toml"
cp /opt/vp/ws/Cargo.lock "$t/Cargo.lock" 2>/dev/null
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true DEMO_DATA="$t/data"
cargo build --offline --quiet 2>"$t/log" || { tail -30 "$t/log"; exit 2; }
timeout 100 "$t/target/debug/demo"
