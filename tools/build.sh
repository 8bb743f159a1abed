# Sourced: builds $ROOT/target/release/harness from /repo's current working tree.
export HOME=/root
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$ROOT/target
mkdir -p "$ROOT/target"
(
  flock 9
  # Cargo decides by modification times; the content decides here.
  NEW=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
  OLD=$(cat "$ROOT/target/scribe.hash" 2>/dev/null)
  if [ "$NEW" != "$OLD" ]; then
    rm -f "$ROOT/target/scribe.hash"
    (cd "$ROOT/harness" && cargo clean --release -p scribe --offline >/dev/null 2>&1)
  fi
  if ! (cd "$ROOT/harness" && cargo build --release --offline --locked) >"$ROOT/target/build.log" 2>&1; then
    echo "ERROR: the harness does not build against /repo:" >&2
    tail -n 40 "$ROOT/target/build.log" >&2
    exit 2
  fi
  echo "$NEW" >"$ROOT/target/scribe.hash"
) 9>"$ROOT/target/.lock"
