#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds the harness against /repo's current working tree and runs one property.
set -u
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/tools/build.sh" || exit 2
export VERIF_ROOT=$ROOT
exec "$ROOT/target/release/harness" run "$ID" --tier "$TIER"
