#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds the harness from /repo's working tree and runs the seeded search
V=$(cd "$(dirname "$0")/.." && pwd)
export NARSIM_VERIF=$V
[ -n "$2" ] && export VERIF_TIER=$2
bash "$V/tools/build.sh" || exit 2
exec "$V/target/debug/narsim" check "$1"
