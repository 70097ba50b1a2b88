#!/bin/bash
# Builds the extractor once and checks that the verifier runs. (Checks rebuild what they need.)
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
cargo build --offline -q --manifest-path vx/Cargo.toml
verus --version >/dev/null
