#!/bin/bash
# Type-checks /repo's current working tree under the driver; writes the MIR facts of every library crate to $1.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
B=${ARFX_BUILD:-$V/.build}
OUT=$(realpath -m "$1")
REPO=${REPO:-/repo}
bash "$V/tools/build.sh"
exec 9>"$B/lock"
flock 9
export RUSTC_ICE=0 CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true ARFACTS_OUT=$OUT CARGO_TARGET_DIR=$B/target
export RUSTC_WORKSPACE_WRAPPER=$B/driver/release/arfacts
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
unset RUSTFLAGS
# the protocol crate's build script rewrites a tracked file (identically): keep it exactly as it was
KEEP=$(mktemp -d)
trap 'rm -rf "$KEEP"' EXIT
G=$REPO/crates/protocol/src
[ -d "$G" ] || G=$(dirname "$(grep -rl remote_runner_inner "$REPO/crates" --include=lib.rs 2>/dev/null | head -1)")
cp -a "$G" "$KEEP/src"
rm -rf "$OUT"
mkdir -p "$OUT"
# never trust an earlier type check of the workspace crates
rm -rf "$B"/target/debug/build/astro-run* "$B"/target/debug/build/astro_run* "$B"/target/debug/.fingerprint/astro-run* "$B"/target/debug/incremental
rc=0
(cd "$REPO" && cargo +nightly check --workspace --lib --offline -q) > "$OUT/cargo.log" 2>&1 || rc=$?
for f in $(cd "$KEEP/src" && find . -type f); do cmp -s "$KEEP/src/$f" "$G/$f" || cp -p "$KEEP/src/$f" "$G/$f"; done
if [ $rc -ne 0 ]; then tail -30 "$OUT/cargo.log" >&2; fi
exit $rc
