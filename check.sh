#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
# Builds the harness against /repo's working tree, explores the property's bounded space on the
# real code. Exit 0 held / 1 VIOLATION / 2 the check itself could not run.
ID=$1; TIER=${2:-quick}
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$HERE/target" VERIF_DIR="$HERE"
export VERIF_SEED=${VERIF_SEED:-1}
mkdir -p "$HERE/evidence"
LOG="$HERE/evidence/build-$ID.log"
if ! (cd "$HERE/mc" && cargo build --offline --locked) >"$LOG" 2>&1; then
    tail -40 "$LOG"; echo "build of the harness failed"; exit 2
fi
if [ "$ID" = "${SERVER_PROPERTY:-C21}" ]; then
    if ! (cd /repo && cargo build -p wat_server --offline --locked) >>"$LOG" 2>&1; then
        tail -40 "$LOG"; echo "build of the server failed"; exit 2
    fi
    export WAT_SERVER="$HERE/target/debug/wat_server"
fi
BIN="$HERE/target/debug/watmc"
ulimit -c 0
"$BIN" run "$ID" "$TIER"
rc=$?
if [ $rc -gt 128 ]; then
    # the code under test took the whole process down (stack overflow, abort): find the input
    "$BIN" run "$ID" "$TIER" trace 2>"$HERE/evidence/trace-$ID.log" >"$HERE/evidence/trace-$ID.out"
    rc2=$?
    if [ $rc2 -gt 128 ]; then
        grep '^CASE ' "$HERE/evidence/trace-$ID.log" | tail -1 | sed 's/^CASE //' >"$HERE/evidence/case-$ID.json"
        printf '{"property":"%s","case":%s,"message":"the process was killed by a signal"}\n' "$ID" "$(cat "$HERE/evidence/case-$ID.json")" >"$HERE/evidence/replay-$ID.json"
        rm -f "$HERE/evidence/trace-$ID.log"
        printf '{"property":"%s","tier":"%s","seed":%s,"level":"model_checking","coverage":{"explanation":"process crashed on the case in replay-%s.json"},"wall_s":0,"violations":1}\n' "$ID" "$TIER" "$VERIF_SEED" "$ID" >"$HERE/evidence/$ID.json"
        echo "the process died on: $(head -c 600 "$HERE/evidence/case-$ID.json")"
        echo "VIOLATION property=$ID replay=$HERE/evidence/replay-$ID.json"
        exit 1
    fi
    rm -f "$HERE/evidence/trace-$ID.log"
    cat "$HERE/evidence/trace-$ID.out"
    [ $rc2 -eq 1 ] && exit 1
    echo "process died by signal $((rc-128)) but not when run one case at a time"; exit 2
fi
exit $rc
