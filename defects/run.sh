#!/bin/bash
# Usage: run.sh [path-to-lokky]   Runs every case against that tree (default /repo).
tree=$(realpath "${1:-/repo}")
d=$(mktemp -d /tmp/defects.XXXXXX)
cp -r "$(dirname "$0")/src" "$d/"
sed "s#../../repo#$tree#" "$(dirname "$0")/Cargo.toml" > "$d/Cargo.toml"
cd "$d" && export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q 2>/dev/null && cargo build --offline -q --release 2>/dev/null || { echo "build failed"; exit 2; }
for c in $("$d/target/debug/defects" list); do
  r=""
  for m in debug release; do
    timeout 20 "$d/target/$m/defects" "$c" >/dev/null 2>"$d/err"; rc=$?
    r="$r $m=$rc"
  done
  echo "$c$r"
done
rm -rf "$d"
