#!/bin/bash
# check.sh <ID> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>           execute a replay file again
# check.sh selftest [ID..]         the simulator must repeat itself exactly
# check.sh build
cd "$(dirname "$0")/sim" || exit 2
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
V=$(cd .. && pwd)
export CARGO_TARGET_DIR="$V/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET
log=$(mktemp /tmp/jbksim-build.XXXXXX)
T=x86_64-unknown-linux-gnu
build() { # build <profile directory name> [cargo arguments]
  local d=$1; shift
  # (with the command line tool, whose sources are included; without it when they cannot be)
  if ! cargo build --offline --bin jbksim --target "$T" "$@" --features cli >"$log" 2>&1 &&
     ! cargo build --offline --bin jbksim --target "$T" "$@" >"$log" 2>&1; then
    tail -40 "$log" >&2; rm -f "$log"; exit 2
  fi
  BIN="$CARGO_TARGET_DIR/$T/$d/jbksim"
}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case "$1" in
  build) build release --release; build checked --profile checked; rm -f "$log"; exit 0 ;;
  replay)
    if grep -q '"tag": *"-checked"' "$2"; then build checked --profile checked; else build release --release; fi
    rm -f "$log"; exec "$BIN" replay "$2" --verif "$V" ;;
  selftest) build release --release; rm -f "$log"; shift; exec "$BIN" selftest "$@" --verif "$V" ;;
  C06)
    # both halves of the statement: as built for release, and with debug assertions and overflow checks
    build release --release; A=$BIN
    build checked --profile checked; B=$BIN
    rm -f "$log"
    "$A" run C06 --tier "$tier" --seed "$seed" --verif "$V" --tag -release; a=$?
    "$B" run C06 --tier "$tier" --seed "$seed" --verif "$V" --tag -checked; b=$?
    python3 - "$V/evidence" <<'P'
import json,sys,os
d=sys.argv[1]
a=json.load(open(d+'/C06-release.json')); b=json.load(open(d+'/C06-checked.json'))
c=a['coverage']; e=b['coverage']
m=dict(a); m['coverage']=dict(c); m['coverage']['with_debug_assertions']=e
for k in ('evaluations','distinct_nontrivial'): m['coverage'][k]=c[k]+(e[k] if k=='evaluations' else 0)
m['wall_s']=a['wall_s']+b['wall_s']; m['violations']=a['violations']+b['violations']
json.dump(m,open(d+'/C06.json','w'),indent=2)
for f in ('C06-release.json','C06-checked.json'): os.unlink(d+'/'+f)
P
    [ $a = 1 ] || [ $b = 1 ] && exit 1
    [ $a = 0 ] && [ $b = 0 ] && exit 0
    exit 2 ;;
  C??) build release --release; rm -f "$log"
    exec "$BIN" run "$1" --tier "$tier" --seed "$seed" --verif "$V" ;;
  *) echo "usage: check.sh ID [tier] | replay FILE | selftest | build" >&2; exit 2 ;;
esac
