#!/bin/bash
# Builds the program beside this script against the crates of the current directory (the repository) and runs it.
# Everything it writes lies in a scratch directory of its own.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="${DEMO_TARGET:-$scratch/target}"
mkdir -p "$scratch/demo/src" "$scratch/data"
cp "$here"/*.rs "$scratch/demo/src/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$scratch/demo/Cargo.toml"
[ -f Cargo.lock ] && cp Cargo.lock "$scratch/demo/Cargo.lock"
cd "$scratch/demo" || exit 2
timeout 240 cargo build --offline -q > "$scratch/log" 2>&1 || { tail -40 "$scratch/log"; echo "demo did not build"; exit 2; }
SCRATCH="$scratch/data" timeout 50 "$CARGO_TARGET_DIR/debug/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: as expected" || echo "demo: property broken (exit $rc)"
exit $rc
