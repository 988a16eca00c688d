#!/bin/bash
# quick.sh FN...: analyse each function, one line per result plus distinct failures
for f in "$@"; do TMO=${TMO:-200} NOCHECK=1 bash /verif/tools/h.sh $f 2>&1 | grep -v "^warning\|^  |\|^  =\|^$" | cut -c1-${W:-260}; done
