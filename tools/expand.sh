#!/bin/bash
# expand.sh OUTDIR : compiler-expanded source of pest3_core
set -e
cd /repo && CARGO_TARGET_DIR=${VX_TARGET:-/tmp/exp/tgt} cargo +nightly rustc --offline -q -p pest3_core --lib -- -Zunpretty=expanded > "$1/core.rs"
