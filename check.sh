#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree, then search.
# Exit 0: held on everything explored. 1: VIOLATION line. Anything else: could not decide.
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 2
if ! "$V/build.sh" all; then echo "could not build the tree under test"; exit 2; fi
exec "$V/build/htarget/release/vharness" check "$1" $([ "${2:-$VERIF_TIER}" = thorough ] && echo thorough)
