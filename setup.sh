#!/bin/bash
# Builds everything from the committed files and /repo's working tree, offline.
here="$(cd "$(dirname "$0")" && pwd)"
for part in harness cli macros; do
  "$here/tools/build.sh" $part || exit
done
