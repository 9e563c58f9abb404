#!/bin/bash
# Builds everything the checks use.
. "$(dirname "$(readlink -f "$0")")/lib.sh"
build_pv
build_cli
echo "setup done"
