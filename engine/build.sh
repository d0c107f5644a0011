#!/bin/bash
cd "$(dirname "$0")" && CARGO_TARGET_DIR=${1:-/tmp/eng} cargo build --offline --release 2>&1 | grep -E "^error" -A12
