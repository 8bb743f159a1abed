#!/bin/bash
# Development helper: runs each planted bug's check (or the ones given in $IDS) against a scratch copy with the bug.
# usage: seedcheck.sh [seed ...]
ROOT=$(cd "$(dirname "$0")/.." && pwd)
W=${CHK:-/tmp/seedwork/chk}; mkdir -p $W; [ -d $W/repo ] || cp -a /repo $W/repo
[ $# -gt 0 ] || set -- $(ls $ROOT/seeded)
for s in "$@"; do
  rm -rf "$W/repo/src" && cp -a /repo/src "$W/repo/src"
  git -C $W/repo apply $ROOT/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  P=${IDS:-$(python3 -c "import json;print(json.load(open('$ROOT/seeded/$s/meta.json'))['property'])")}
  VA=$W/va NOREGRESS=${NOREGRESS-1} W=300 $ROOT/tools/against.sh $W/repo "$P" >$W/out 2>&1
  if grep -q "^VIOLATION property=" $W/out; then echo "$s: CAUGHT $(grep -o '^VIOLATION property=[^ ]*' $W/out | tr '\n' ' ') $(grep -oE '[0-9.]+ s$' $W/out | tr '\n' ' ')"; else echo "$s: MISSED"; tail -3 $W/out; fi
done
