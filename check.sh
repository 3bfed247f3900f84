#!/bin/bash
# check.sh ID quick|thorough: decides one property on the current tree of /repo.
# Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer (does not build, harness error).
# VERIF_SEED chooses the random seed (default 1), VERIF_CASES the number of cases.
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
. "$VERIF/kind.sh" "$id"
bash "$VERIF/build.sh" "$kind" || exit 2
mkdir -p "$VERIF/evidence" "$VERIF/replays"
ulimit -c 0
ulimit -v 20000000
"$CARGO_TARGET_DIR/release/$program" check "$id" "$tier" "${VERIF_SEED:-1}" \
    "$VERIF/evidence/$id.json" "$VERIF/replays" $VERIF_CASES
code=$?
[ $code -le 1 ] && exit $code
echo "ERROR: the check of $id ended with code $code" >&2
exit 2
