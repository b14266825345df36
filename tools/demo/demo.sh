#!/bin/bash
# exit 0: the property holds on the code in the current directory (a checkout of the repository)
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(mktemp -d) || exit 3; trap 'rm -rf "$D"' EXIT
mkdir "$D/src"; cp "$HERE/main.rs" "$D/src/main.rs"; cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat >"$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
wat_service = { path = "$REPO/crates/service" }
wat_parser = { path = "$REPO/crates/parser" }
wat_syntax = { path = "$REPO/crates/syntax" }
wat_formatter = { path = "$REPO/crates/formatter" }
rowan = "0.15"
line-index = "0.1"
lsp-types = "0.97"
serde_json = "1"
T
cd "$D" && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$D/target" cargo build --offline -q 2>"$D/log" || { cat "$D/log" >&2; exit 4; }
timeout 60 "$D/target/debug/demo"
