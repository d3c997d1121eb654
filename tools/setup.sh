#!/bin/bash
# builds the conformance harness (checks rebuild it from /repo's current tree themselves)
cd "$(dirname "$0")/../harness" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR RUSTFLAGS
cargo build --offline --release -q
