#!/bin/bash
# Usage: run.sh check <ID> [--thorough] | replay <file>
# Rebuilds the simulator (and with it the library) from /repo's current working tree, then runs.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true
# Without support for fields called like keywords the rest can still be checked.
if ! out=$(cargo build --offline -q 2>&1) && ! cargo build --offline -q --no-default-features --features time 2>/dev/null; then
    echo "$out" | grep -E "^error" -A8 | head -60 >&2
    echo "build failed" >&2
    exit 3
fi
export VERIF_ROOT="${VERIF_ROOT:-$(cd .. && pwd)}"
exec ./target/debug/sim "$@"
