#!/bin/bash
# builds the extractor and the falsifiers; every check rebuilds what it needs from /repo's current tree
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
(cd extract && CARGO_TARGET_DIR=../target/extract cargo build --offline) || exit 1
(cd native && CARGO_TARGET_DIR=../target/native cargo build --offline --release) || exit 1
(cd native && CARGO_TARGET_DIR=../target/native512 cargo +nightly build --offline --release --features unstable) || echo "AVX-512 build not available"
exit 0
