#!/bin/bash
# Builds the analyser from the committed files: the rustc driver and the facts of the reference models.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
B=${ARFX_BUILD:-$V/.build}
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
unset RUSTC_WORKSPACE_WRAPPER RUSTFLAGS
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
stamp=$(cat "$V"/driver/src/main.rs "$V"/driver/Cargo.toml "$V"/models/src/lib.rs "$V"/models/Cargo.toml | sha256sum | cut -c1-32)
if [ -x "$B/driver/release/arfacts" ] && [ -f "$B/mfacts/arfx_models.json" ] && [ "$(cat "$B/stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
(cd "$V/driver" && CARGO_TARGET_DIR=$B/driver cargo +nightly build --release --offline -q)
rm -rf "$B/mfacts" "$B/mtarget"
mkdir -p "$B/mfacts"
(cd "$V/models" && ARFACTS_OUT=$B/mfacts CARGO_TARGET_DIR=$B/mtarget RUSTC_WORKSPACE_WRAPPER=$B/driver/release/arfacts cargo +nightly check --offline -q)
echo "$stamp" > "$B/stamp"
