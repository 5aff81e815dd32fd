#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the harness against /repo's working tree and runs one check.
cd /verif || exit 2
bash ./build.sh || { echo "build failed" >&2; exit 2; }
ulimit -c 0
exec ./target/release/vh check "$1" "${2:-${VERIF_TIER:-quick}}"
