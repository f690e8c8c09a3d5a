#!/bin/bash
# run.sh PROPERTY: builds the property's harness from /repo's working tree and runs it.
# Exit 0: held; exit 1 with a VIOLATION line: broken; 3: the check itself could not run.
VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT
ID=$1
line=$(grep -E "^$ID[[:space:]]" "$VERIF_ROOT/harness/INDEX") || { echo "unknown property $ID" >&2; exit 3; }
set -- $line
shift
name=$1
shift
bin=$(python3 "$VERIF_ROOT/tools/build.py" "$name" "$@" | tail -1) || exit 3
[ -x "$bin" ] || exit 3
export VERIF_PROPERTY=$ID
exec "$bin"
