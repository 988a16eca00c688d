#!/bin/bash
cd /verif/driver && CARGO_TARGET_DIR=/verif/build/driver cargo +nightly build --release --offline "$@"
