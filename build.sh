#!/bin/bash
# build.sh [scope|io|full]: mirrors the current tree of /repo and builds a harness against it.
# Exit 2 if that fails.
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
kind=${1:-scope}
mkdir -p "$VERIF/build"
exec 9>"$VERIF/build/lock"
flock 9
python3 "$VERIF/sync.py" "$kind" || exit 2
case $kind in
scope) cd "$VERIF/harness" || exit 2 ;;
io) cd "$VERIF/harness_io" || exit 2 ;;
full) cd "$VERIF/harness_full" || exit 2 ;;
esac
log="$VERIF/build/build-$kind.log"
if ! cargo build --release --offline --locked >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "ERROR: the harness does not build against the current tree of /repo" >&2
    exit 2
fi
