#!/bin/bash
# Builds every check once, so that toolchain problems show up early. Each check rebuilds what it needs itself.
cd "$(dirname "$0")" || exit 1
rc=0
for f in harness/props/C[0-9][0-9].cpp; do
    p=$(basename "$f" .cpp)
    ./check "$p" --build-only || rc=1
done
exit $rc
