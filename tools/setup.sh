#!/bin/bash
# setup_cmd: builds the harness once.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
. "$ROOT/tools/build.sh"
