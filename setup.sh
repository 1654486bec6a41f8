#!/bin/bash
# Nothing is kept for the checks: each of them builds what it needs. This only shows that the harness builds.
set -e
cd "$(dirname "$0")/harness"
cargo build --offline -q 2>/dev/null || cargo build --offline
cargo +nightly miri --version
echo ready
