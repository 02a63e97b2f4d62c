#!/bin/bash
# trace.sh FEATURE ENTRY PARAMS "INPUTS (hex)": tells what the clocked cluster did (after dev.sh, which builds the replayer's inputs)
if [ "$HALT" ]; then cd /tmp/halt/harness; else cd /verif/harness; fi
export CARGO_TARGET_DIR=/tmp/trace-target
cargo +stable build --profile release --offline -q --lib --features $1,trace 2>/dev/null || exit 2
gcc -shared -o /tmp/trace.so -Wl,--whole-archive /tmp/trace-target/release/libharness.a -Wl,--no-whole-archive -lpthread -ldl -lm
gcc -O1 -o /tmp/trace-replay ../runner/replay.c -ldl -rdynamic
echo "$2|$3|$4" > /tmp/trace.job
REPLAY_VERBOSE=1 /tmp/trace-replay /tmp/trace.so /tmp/trace.job
