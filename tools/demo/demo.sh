#!/bin/bash
# Builds a small program against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && { . /opt/vp/env.sh; cd "$repo"; }
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/src" "$here/Cargo.lock" "$scratch/" || exit 3
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$scratch/Cargo.toml"
cd "$scratch" || exit 3
export CARGO_TARGET_DIR="$repo/target" CARGO_INCREMENTAL=0
# Builds of the crate with different features share one output file (it is a cdylib too),
# so what cargo takes for fresh may be another one: have the crate itself rebuilt.
deps="$CARGO_TARGET_DIR/debug/deps"
for f in "$CARGO_TARGET_DIR"/debug/.fingerprint/phoenix-v1-*; do
  [ -f "$f/lib-phoenix" ] && [ ! -f "$deps/libphoenix-${f##*-}.rlib" ] && rm -rf "$f"
done
touch src/main.rs
timeout 250 cargo build --offline > build.log 2>&1 || { tail -30 build.log; exit 3; }
timeout 40 "$CARGO_TARGET_DIR/debug/phxdemo" 2>&1
