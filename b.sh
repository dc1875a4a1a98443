#!/bin/bash
# developer helper: build the simulator, showing only its own errors and warnings
cd /verif/sim || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/sim/target
cargo build --release --offline --features cli --message-format short 2>&1 | grep -v ' warning: ' | grep -E '^src/.*|^error|Finished' | head -${1:-60}
