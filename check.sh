#!/bin/bash
# check.sh Cxx [quick|thorough] -- rebuilds the simulator from /repo's working tree and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
cd "$here/sim" || exit 2
. "$here/env.sh"
cargo build --offline --quiet 2>"$here/sim/target/build.log.$$" || {
  cat "$here/sim/target/build.log.$$" >&2; rm -f "$here/sim/target/build.log.$$"
  echo "the simulator does not build against /repo" >&2; exit 2; }
rm -f "$here/sim/target/build.log.$$"
cd "$here" || exit 2
exec "$CARGO_TARGET_DIR/debug/vsim" check --property "$prop" --tier "$tier" --root "$here"
