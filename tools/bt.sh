#!/bin/bash
# sample the analyser: bt.sh FN SECS
cd /verif/harness; export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
ulimit -v 16000000
VFN=$1 /verif/build/driver/release/vdriver analyse /verif/build/std.args >/dev/null 2>&1 &
P=$!
sleep $2
gdb -p $P -batch -ex "thread apply all bt 60" 2>/dev/null | grep -E "vdriver::|Thread" | grep -oE "vdriver::[a-zA-Z_:<>']*|Thread [0-9]+" | head -80
kill -9 $P
