#!/bin/bash
# replay.sh FILE: runs the case of a replay file against the current tree of /repo.
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
file=$(realpath "$1")
. "$VERIF/kind.sh" "$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$file")"
bash "$VERIF/build.sh" "$kind" || exit 2
exec "$CARGO_TARGET_DIR/release/$program" replay "$file"
