#!/bin/bash
# facts.sh OUTDIR [REPO]: extract the type-checked program (one JSON per crate)
# from REPO's (default /repo) current working tree into OUTDIR.
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$1"; REPO="${2:-/repo}"
BUILD="${VP_BUILD:-$HERE/build}"
mkdir -p "$OUT" "$BUILD"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER= 
if [ ! -x "$BUILD/driver/debug/vpdriver" ] || [ "$HERE/driver/src/main.rs" -nt "$BUILD/driver/debug/vpdriver" ]; then
  "$HERE/driver/build.sh" "$BUILD/driver" >&2
fi
LIB="$(rustc --print sysroot)/lib"
export LD_LIBRARY_PATH="$LIB${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
export RUSTFLAGS="--cap-lints=warn" VP_FACTS_DIR="$OUT"
TD="$BUILD/target"
rm -f "$OUT"/boostvoronoi.json "$OUT"/boostvoronoi_core.json "$OUT"/boostvoronoi_ext.json
# cargo's freshness cache would skip the wrapper: drop the three crates' own
# fingerprints so that they are always re-analysed (dependencies stay cached).
for d in "$TD"/debug/.fingerprint/boostvoronoi* "$TD"/debug/build/boostvoronoi*; do
  if [ -n "$TD" ] && [ -e "$d" ]; then rm -rf "$d"; fi
done
cd "$REPO"
LOCK=()
[ -f Cargo.lock ] || { cp "$HERE/Cargo.lock.pinned" Cargo.lock; LOCK=(1); }
RC=0
CARGO_TARGET_DIR="$TD" RUSTC_WORKSPACE_WRAPPER="$BUILD/driver/debug/vpdriver" \
  cargo check --offline --lib --workspace --features cgmath,geo,mint,glam,serde,nalgebra >"$OUT/cargo.log" 2>&1 || RC=$?
[ -z "${LOCK[*]}" ] || rm -f "$REPO/Cargo.lock"
if [ $RC -ne 0 ]; then tail -40 "$OUT/cargo.log" >&2; exit 3; fi
for c in boostvoronoi boostvoronoi_core boostvoronoi_ext; do
  [ -s "$OUT/$c.json" ] || { echo "facts: no facts for $c" >&2; exit 3; }
done
