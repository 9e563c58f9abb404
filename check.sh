#!/bin/bash
# check.sh <ID> [sub-check]      decide one property on /repo's working tree
# check.sh --replay <file>       run one saved case again
# VERIF_TIER=quick|thorough, VERIF_SEED=<n>
arg2="$2"
[ "$1" = "--replay" ] && arg2="$(readlink -f "$2")"
. "$(dirname "$(readlink -f "$0")")/lib.sh"
build_pv
if [ "$1" = "C28" ] || { [ "$1" = "--replay" ] && grep -q '"C28"' "$arg2"; }; then
  build_cli
fi
flock -u 9
exec 9>&-
if [ "$1" = "--replay" ]; then
  exec .build/release/pv replay "$arg2"
fi
exec .build/release/pv check "$@"
