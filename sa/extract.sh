#!/bin/bash
# Builds the MIR extractor if needed and dumps the typed MIR of /repo's current
# source (all features) to $1.  Nothing is written under /repo.
set -e
OUT=$(realpath -m "$1")
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${RPHON_REPO:-/repo}
B=${RPHON_BUILD:-$V/build}
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
unset RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET
(cd "$V/driver" && CARGO_TARGET_DIR="$B/driver" cargo +nightly build --offline --locked -q 1>&2)
[ -s "$B/unicode.json" ] || { "$B/driver/debug/uni" > "$B/unicode.tmp" && mv "$B/unicode.tmp" "$B/unicode.json"; }
T="$B/t"
rm -rf "$T"/debug/.fingerprint/rphonetic-* "$T"/debug/build/rphonetic "$T"/debug/build/rphonetic-* "$T"/debug/incremental
rm -f "$OUT"
cd "$REPO"
export RPHON_DESCEND="std::option,std::result,std::iter,std::ops,std::cmp,std::convert,std::bool,std::clone,std::default,core::option,core::result,core::iter,core::ops,core::cmp,core::convert,core::bool,<std::option,<std::result,<std::iter,<std::ops,<T as std::convert,<I as std::iter,<F as std::ops,<&F as,<&mut F as,<&mut I as,either::,<either::,<char as,<&T as std,core::num::<impl,core::str::<impl str>::parse,std::array::<impl,<T as std::string::ToString,std::mem"
RPHON_OUT="$OUT" RUSTC_WORKSPACE_WRAPPER="$B/driver/debug/rphon-driver" CARGO_TARGET_DIR="$T" \
  cargo +nightly check --lib --offline --locked --all-features -q 1>&2
[ -s "$OUT" ]
