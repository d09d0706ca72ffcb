#!/bin/bash
# run.sh ID [--quick|--thorough|--replay FILE]: rebuild the checker against /repo's working tree, then run it.
# run.sh --build: only build.
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh
export CARGO_TARGET_DIR="$(dirname "$PWD")/target" MC_VERIF="$(dirname "$PWD")"
log=$(mktemp)
if ! cargo build --release --offline --locked >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "BUILD FAILED" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = --build ] && exit 0
exec "$CARGO_TARGET_DIR/release/mc" "$@"
