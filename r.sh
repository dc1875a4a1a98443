#!/bin/bash
# developer helper: run a check with the built simulator
exec /verif/sim/target/x86_64-unknown-linux-gnu/release/jbksim run "$@"
