#!/bin/bash
# builds the analyser and warms the compiled dependencies of each configuration
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
bash tools/b.sh
test -x build/driver/release/vdriver
python3 tools/warm.py
