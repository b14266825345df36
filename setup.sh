#!/bin/bash
# Pre-builds the harness (every check rebuilds what changed by itself).
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$HERE/target"
mkdir -p "$HERE/evidence"
cd "$HERE/mc" && cargo build --offline --locked
