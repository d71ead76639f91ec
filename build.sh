#!/bin/bash
# build.sh OUTDIR HARNESS_FEATURES ENTRY[,ENTRY...]
# Compiles /repo + the harness crate to LLVM IR from the current sources and links the native replay binary.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
OUT=$1; FEAT=$2; ENTRIES=$3
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable SIDERUST_JPL_STUB=all CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS || true
TD=${SV_TARGET:-$OUT/target}; export CARGO_TARGET_DIR=$TD
mkdir -p "$OUT"
cd "$V/harness"
RUSTC_WRAPPER=$V/rw.sh RUSTFLAGS="--cfg verif_hooks --check-cfg=cfg(verif_hooks)" \
  cargo rustc --release --offline --features "$FEAT" -- -C save-temps -C no-vectorize-loops -C no-vectorize-slp >"$OUT/cargo.log" 2>&1 || { tail -50 "$OUT/cargo.log" >&2; exit 3; }
T=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
BC=$(ls -t "$TD"/release/deps/h-*.lto.after-restriction.bc | head -1)
"$T/opt" --internalize-public-api-list="$ENTRIES" -passes=internalize,globaldce "$BC" -o "$OUT/t.bc"
"$T/llvm-dis" "$OUT/t.bc" -o "$OUT/t.ll"
rm -f "$OUT/t.bc"
{ echo '#include "replay.h"'; IFS=,; for e in $ENTRIES; do echo "void $e(void);"; done; echo 'struct ent ents[]={'; for e in $ENTRIES; do echo "{\"$e\",$e},"; done; echo '{0,0}};'; } >"$OUT/ents.c"
cc -O1 -I"$V/native" "$OUT/ents.c" "$V/native/replay.c" "$TD/release/libh.a" -o "$OUT/replay" -lm -lpthread -ldl
