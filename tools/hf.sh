#!/bin/bash
# hf.sh CONFIG FN[,FN..]: analyse functions of a front end's specification
cd /verif && python3 -c "
import sys; sys.path.insert(0,'tools')
import check; check.build('$1')" | cut -c1-3000
cd /verif/build/front-$1 2>/dev/null || cd /verif/harness
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
ulimit -v 16000000
VFN="$2" timeout ${TMO:-120} /verif/build/driver/release/vdriver analyse /verif/build/$1.args 2>&1 | grep -vE "unused in crate|^ *\||= (help|note)|warnings emitted|^$" | cut -c1-${W:-420} | head -${L:-60}
