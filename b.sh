#!/bin/bash
. /opt/vp/env.sh; unset CARGO_INCREMENTAL; cd /verif/harness
CARGO_TARGET_DIR=/verif/target cargo build --release --offline 2>&1 | awk '/^error/{p=1} /^warning/{p=0} p' | head -${1:-80}
