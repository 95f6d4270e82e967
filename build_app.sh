#!/bin/bash
# Build the simulator and the application under test (with calls to the TSan runtime, which the
# simulator implements) from /repo's current tree. Rebuilds only what changed.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
LOG=$V/target/build.log
mkdir -p "$V/target"
exec 9>"$V/target/.lock"; flock 9
if [ "${1:-}" = all ] || [ ! -x "$V/target/sim/release/pzrun" ]; then
  (cd "$V/sim" && CARGO_TARGET_DIR="$V/target/sim" cargo build --release --offline) >"$LOG" 2>&1 || { tail -40 "$LOG" >&2; echo "harness: simulator build failed" >&2; exit 3; }
fi
STAMP=$V/target/app.stamp
sum() { (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$V/target/sim/release/libpzsim.so") | sha256sum | cut -d' ' -f1; }
NEW=$(sum)
if [ ! -x "$V/target/app/release/pizauth" ] || [ "$(cat "$STAMP" 2>/dev/null)" != "$NEW" ]; then
  rm -f "$STAMP"
  # Cargo goes by modification times; a tree with other content but old times must be rebuilt too.
  rm -rf "$V/target/app/release/.fingerprint"/pizauth-* "$V/target/app/release/build"/pizauth-*
  CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_OPT_LEVEL=1 \
   cargo +nightly rustc --release --offline --manifest-path /repo/Cargo.toml --target-dir "$V/target/app" --bin pizauth -- \
   -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
   -C link-arg="$V/target/sim/release/libpzsim.so" >"$LOG" 2>&1 || { tail -40 "$LOG" >&2; echo "harness: build of /repo failed" >&2; exit 3; }
  echo "$NEW" >"$STAMP"
fi
