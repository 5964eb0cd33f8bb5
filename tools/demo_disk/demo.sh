#!/bin/bash
# Exit 0: behaves as it should. Nonzero: the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
sed "s#REPO#$repo#" "$here/Cargo.toml" > "$d/Cargo.toml"
cp "$here"/*.rs "$d/src/"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cp -r "$here/rocksdb" "$d/rocksdb"
export DEMO_DB="$d/db"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo +stable run --offline -q
