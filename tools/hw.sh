#!/bin/bash
# hw.sh FN[,FN..]: analyse harness functions of the web configuration
cd /verif/harness && touch src/lib.rs
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
VARGS=/verif/build/web.args RUSTC_WRAPPER=/verif/build/driver/release/vdriver CARGO_TARGET_DIR=/verif/build/t-web \
cargo +nightly -Zchecksum-freshness check --offline -F web 2>&1 | grep -E "^(error|warning: unused (var|imp))" -A8
ulimit -v 16000000
VFN="$1" timeout ${TMO:-120} /verif/build/driver/release/vdriver analyse /verif/build/web.args 2>&1 | grep -vE "unused in crate|^ *\||= (help|note)|warnings emitted|^$" | cut -c1-${W:-420} | head -${L:-60}
