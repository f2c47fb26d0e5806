#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/sim" && cargo build --offline --quiet 2>&1 | grep -E "^error" -A8
test -x "$CARGO_TARGET_DIR/debug/vsim"
