#!/bin/bash
# builds the harness and the program once (checks build again whatever changed)
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/tools/env.sh"
. "$VERIF/tools/build.sh"
build_harness && build_cli && build_cli_tsan && build_sanitizers
