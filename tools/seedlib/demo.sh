#!/bin/bash
# Runs demo.rs as an integration test in a scratch copy of the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
src=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/w"
cp -a "$src"/. "$t/w/"
rm -rf "$t/w/.git"
cp "$here/Cargo.lock" "$t/w/Cargo.lock"
mkdir -p "$t/w/tests"
cp "$here/demo.rs" "$t/w/tests/seeded_demo.rs"
cd "$t/w"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu \
  CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUST_BACKTRACE=0
unset CARGO_TARGET_DIR
if ! cargo test --no-run --offline --test seeded_demo > "$t/log" 2>&1; then grep -A12 '^error' "$t/log"; echo "does not build"; exit 3; fi
set +e
timeout 240 cargo test --offline --test seeded_demo > "$t/log" 2>&1
rc=$?
tail -12 "$t/log"
exit $rc
