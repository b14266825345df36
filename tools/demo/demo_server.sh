#!/bin/bash
# exit 0: the property holds on the code in the current directory (a checkout of the repository)
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(mktemp -d) || exit 3; trap 'rm -rf "$D"' EXIT
CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$D/target" cargo build -p wat_server --offline --locked -q 2>"$D/log" || { cat "$D/log" >&2; exit 4; }
timeout 60 python3 "$HERE/client.py" "$D/target/debug/wat_server"
