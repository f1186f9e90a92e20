#!/bin/bash
# check.sh ID: decide one property.  Exit 0: held; 1: VIOLATION line; anything else: error.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 3
exec "$here/harness/target/release/pbt" check "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --verif "$here"
