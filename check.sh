#!/bin/bash
# usage: check.sh <property>; VERIF_SEED and VERIF_TIER from the environment
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || { echo "INCONCLUSIVE property=$1 the monitor does not build"; exit 2; }
export VERIF_ROOT="$here"
cd "$here"
exec "$here/harness/target/debug/vpmon" "$1"
