#!/bin/bash
# Build the rustc driver (once per toolchain/source hash) and dump the type-checked
# program of crate `sia` in $1 (default /repo) to $2.  Nothing of the crate is executed.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${1:-/repo}
OUT=$2
WORK=${VERIF_WORK:-$HERE/../.work}
mkdir -p "$WORK"
WORK=$(cd "$WORK" && pwd)
TC=${VERIF_TOOLCHAIN:-nightly}
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} CARGO_NET_OFFLINE=true
unset RUSTUP_TOOLCHAIN RUSTC RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
SYS=$(rustc +$TC --print sysroot)
H=$( (cat "$HERE/driver/main.rs"; rustc +$TC -V) | sha256sum | cut -c1-16)
DRV="$WORK/thirdump-$H"
exec 9>"$WORK/lock"; flock 9
if [ ! -x "$DRV" ]; then
  rustc +$TC --edition 2021 -O -A warnings "$HERE/driver/main.rs" -o "$DRV.tmp"
  mv "$DRV.tmp" "$DRV"
fi
export LD_LIBRARY_PATH="$SYS/lib:$LD_LIBRARY_PATH"
export RUSTC_WORKSPACE_WRAPPER="$DRV" VERIF_DUMP_CRATE=sia VERIF_DUMP_OUT="$OUT" CARGO_INCREMENTAL=0
rm -f "$OUT"
# force the wrapped crate to be re-checked (the dump is a side effect cargo does not know about)
run() {
  rm -rf "$WORK"/target/debug/.fingerprint/sia_sdk-* "$WORK"/target/debug/build/sia_sdk
  (cd "$REPO" && cargo +$TC check --offline -q -p sia_sdk --lib --target-dir "$WORK/target" >"$WORK/check.log" 2>&1)
}
if ! run; then cat "$WORK/check.log" >&2; exit 2; fi
if [ ! -s "$OUT" ]; then rm -rf "$WORK/target"; run || { cat "$WORK/check.log" >&2; exit 2; }; fi
[ -s "$OUT" ] || { echo "no dump produced" >&2; exit 2; }
