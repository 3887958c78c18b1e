#!/bin/bash
# Builds ahead what the checks build (they rebuild from /repo's tree themselves).
cd "$(dirname "$0")/.."
(cd harness && RUSTFLAGS='--cfg verif_hooks' CARGO_TARGET_DIR="$PWD/target" cargo build --offline --release --quiet)
here=$PWD
(cd /repo && CARGO_TARGET_DIR="$here/harness/target-bin" cargo build --offline --release --quiet --bin barbarosa)
exit 0
