#!/bin/bash
# Builds every checker once; the later builds are incremental.
set -e
cd "$(dirname "$0")"
(cd checks && cargo build --offline --quiet)
(cd checks && cargo build --offline --quiet --no-default-features --features twin --target-dir target/twin)
(cd checks && ./target/debug/checks prepare)
