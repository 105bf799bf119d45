#!/bin/bash
# builds the extractor and the falsifier
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
for c in vx falsify; do
    (cd "$c" && cargo build --offline --release --quiet --target-dir "../build/$c" 2>/dev/null || cargo build --offline --release --target-dir "../build/$c")
done
mkdir -p evidence/replay
