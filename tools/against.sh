#!/bin/bash
# Development helper: runs checks against a scratch copy of the repository.
# usage: against.sh COPY "C01 C02" [harness args]; work files in /tmp/vagainst (or $VA)
ROOT=$(cd "$(dirname "$0")/.." && pwd)
COPY=$1; IDS=$2; shift 2
VA=${VA:-/tmp/vagainst}
mkdir -p "$VA/replays" "$VA/evidence"
rm -rf "$VA/harness" && cp -a "$ROOT/harness" "$VA/harness" || exit 2
if [ -z "${NOREGRESS:-}" ]; then rm -rf "$VA/regress"; cp -a "$ROOT/regress" "$VA/regress" 2>/dev/null; else rm -rf "$VA/regress"; fi
sed -i "s#\"/repo\"#\"$COPY\"#" "$VA/harness/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS= CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$VA/target
(cd "$VA/harness" && find "$COPY/src" -name '*.rs' -exec touch {} + && cargo build --release --offline 2>&1) >"$VA/build.log" || { grep -E '^error' -A8 "$VA/build.log" | head -40; exit 2; }
export VERIF_ROOT=$VA
for i in $IDS; do "$VA/target/release/harness" run $i "$@" 2>&1 | cut -c1-${W:-500}; done
