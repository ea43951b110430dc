#!/bin/bash
# Builds the harness against /repo's working tree and runs one check: run.sh <property> [quick|thorough]
# run.sh replay <file> runs a replay file again.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/tools/env.sh"
vp="$here/target/build/debug/vp"
built() {
  "$here/tools/build.sh" "$1" >"$here/target/build-$1.log" 2>&1 && return
  cat "$here/target/build-$1.log"
  echo "ERROR the $1 does not build against /repo"
  exit 2
}
built harness
id="$1"
[ "$1" = replay ] && id="$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)"
case "$id" in C21 | C29) built cli ;; esac
[ "$id" = C22 ] && built macros
[ "$1" = replay ] && exec "$vp" replay "$2"
[ -n "$2" ] && export VERIF_TIER="$2"
exec "$vp" check "$1"
