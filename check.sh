#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]; run anywhere. Builds what it needs from /repo's
# working tree and runs the property's check. Exit 0: held; 1: VIOLATION line; else: no answer.
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
if [ "$prop" = C19 ]; then
  build_asan || exit 2
  bin=$ASAN_BIN
else
  build || exit 2
  bin=$BIN
fi
if [ "$prop" = C29 ]; then
  build_api && [ -x "$XV_RUSTC" ] || exit 2
fi
mkdir -p "$here/replays" "$here/evidence"
exec "$bin" check --prop "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --dir "$here"
