#!/bin/bash
# Builds the replay harness once (every check rebuilds it from /repo's tree anyway).
cd "$(dirname "$0")/harness" && CARGO_TARGET_DIR="$(cd .. && pwd)/build/target" cargo build --release --offline --quiet
