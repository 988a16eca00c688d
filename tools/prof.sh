#!/bin/bash
# prof.sh FN N START: sample the analyser N times, print inclusive counts
cd /verif/harness; export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
ulimit -v 16000000
VFN=$1 /verif/build/driver/release/vdriver analyse ${ARGS:-/verif/build/std.args} >/dev/null 2>&1 &
P=$!
sleep ${3:-10}
for i in $(seq $2); do
gdb -p $P -batch -ex "thread apply all bt 300" 2>/dev/null | grep -oE "vdriver::[a-zA-Z_]+::[a-zA-Z_:<>']*" | sort -u
sleep 0.5
done | sort | uniq -c | sort -rn | head -40
kill -9 $P
