#!/bin/bash
# run.sh PROPERTY [quick|thorough]: build the harness against /repo's working
# tree and run the check of one property. VERIF_SEED seeds every random choice.
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
[ "$1" = C27 ] && RACE=1
. "$VERIF_DIR/build.sh" || exit 2
exec "$VERIF_DIR/.bin/secsverif" check "$1"
