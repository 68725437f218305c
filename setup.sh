#!/bin/bash
# Builds the framework once to warm the compiler's cache; every check builds
# again from /repo's current tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
out="$here/.build/setup"
bash "$here/build.sh" "$out"
rc=$?
rm -rf "$out"
exit $rc
