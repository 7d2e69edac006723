#!/bin/bash
# usage: run.sh <property id> [sub-check] | run.sh replay <file> | run.sh build
# Builds the harness against /repo's current working tree and runs one property.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" HV_ROOT="$PWD" CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p target replays evidence
exec 9>target/.lock
flock 9
# cargo decides by modification times; decide by content, so that any change in /repo is seen
h=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repohash 2>/dev/null)" != "$h" ]; then
  rm -f target/.repohash
  cargo clean --release -p hmath --manifest-path harness/Cargo.toml >/dev/null 2>&1
fi
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >target/build.log 2>&1; then
  tail -40 target/build.log
  echo "ERROR: harness did not build"
  exit 2
fi
echo "$h" >target/.repohash
flock -u 9
exec 9>&-
ulimit -c 0
ulimit -v 25165824  # runaway allocation in the code under test ends this process, not the sandbox
case "$1" in
  build) exit 0 ;;
  replay) exec target/release/hv replay "$2" ;;
  *) exec target/release/hv run "$@" ;;
esac
