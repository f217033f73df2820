#!/bin/bash
# check.sh <property> [thorough]: build what the check needs from /repo's current tree, then run it.
# Exit: 0 held, 1 violation (with a VIOLATION line), 2/3 the check itself could not run.
set -u
ID=${1:?property}
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/tools/env.sh"
. "$VERIF/tools/build.sh"
build_harness || exit 2
case $ID in
  C13) build_sanitizers || exit 2 ;;
  C2?|C3?) build_cli || exit 2 ;;
esac
case $ID in
  C36) build_cli_tsan || exit 2 ;;
esac
cd "$VERIF" || exit 2
exec "$CARGO_TARGET_DIR/release/lv" "$ID"
