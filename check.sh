#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build failure).
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || { echo "build failed: no answer"; exit 2; }
export VERIF_DIR="$here"
exec "$here/target/debug/sidsim" check "$@"
