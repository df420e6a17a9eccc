#!/bin/bash
# usage: check.sh <property>        explore the property (tier: VERIF_TIER)
#        check.sh replay <file>     repeat one recorded case
#        check.sh build             build both explorers from /repo's working tree
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p run
build() { # binary, features, target folder
  local log
  log=$(mktemp run/build.XXXXXX) || exit 2
  if ! (flock 9; cd mc && CARGO_TARGET_DIR=$3 cargo build --release --offline --quiet --bin "$1" $2) 9>run/lock >"$log" 2>&1; then
    tail -60 "$log"; rm -f "$log"
    echo "build failed"
    exit 2
  fi
  rm -f "$log"
}
pick() {
  case "$1" in
    P21|P22|P23) build mcp "--features parser" target-p; bin=mc/target-p/release/mcp ;;
    *) build mc "" target; bin=mc/target/release/mc ;;
  esac
}
case "$1" in
  build) pick P01; pick P21; exit 0 ;;
  replay) pick "$(sed -n 's/^property=//p' "$2")"; exec $bin replay "$2" ;;
  P[0-9][0-9]) pick "$1"; exec $bin check "$1" ;;
  *) echo "usage: $0 <property> | replay <file> | build"; exit 2 ;;
esac
