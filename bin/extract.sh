#!/bin/bash
# Type-check /repo's current working tree with the brackmir driver and leave one
# JSON program dump per workspace crate in $OUT.  Dependencies are cached in
# /verif/target; workspace crates are always re-analysed.
set -u
REPO=${BRACK_REPO:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
T=$V/target
OUT=${1:-$T/mir}
mkdir -p "$T"
exec 9>"$T/.lock"; flock 9
DRV=$T/driver/release/brackmir
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTUP_TOOLCHAIN
if [ ! -x "$DRV" ] || [ "$V/driver/src/main.rs" -nt "$DRV" ]; then
  (cd "$V/driver" && cargo +nightly build --release --offline --target-dir "$T/driver") >"$T/driver.log" 2>&1 || { tail -30 "$T/driver.log"; exit 3; }
fi
SYS=$(rustc +nightly --print sysroot)
rm -rf "$OUT"; mkdir -p "$OUT"
# force the workspace crates (never the dependencies) through the wrapper
forget() { rm -rf "$T"/check/debug/.fingerprint/brack* "$T"/check/debug/build/brack*; }
forget
cd "$REPO" || exit 3
LD_LIBRARY_PATH="$SYS/lib:${LD_LIBRARY_PATH:-}" BRACKMIR_OUT="$OUT" RUSTC_WORKSPACE_WRAPPER="$DRV" \
  CARGO_TARGET_DIR="$T/check" CARGO_INCREMENTAL=0 cargo +nightly check --workspace --frozen --offline >"$T/check.log" 2>&1 || { tail -40 "$T/check.log"; exit 3; }
ls "$OUT"/*.json >/dev/null 2>&1 || { echo "no dumps"; exit 3; }
exit 0
