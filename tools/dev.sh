#!/bin/bash
# Development helper: build once, then run the given properties; short output.
# usage: dev.sh "C01 C02" [extra harness args]
ROOT=$(cd "$(dirname "$0")/.." && pwd)
. "$ROOT/tools/build.sh" 2>/dev/null || { grep -E '^(error|warning: unused)' -A7 "$ROOT/target/build.log" | head -${LINES_MAX:-60}; exit 2; }
L=$1; shift
for i in $L; do s=$(date +%s.%N); "$ROOT/target/release/harness" run $i "$@" 2>&1 | cut -c1-1200; done
