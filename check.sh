#!/bin/bash
# check.sh ID [quick|thorough]: build the monitor from /repo's working tree and run one property's check.
# Exit 0: held; 1: VIOLATION line printed; 3: inconclusive.
cd "$(dirname "$0")" || exit 2
home=$PWD
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
. "$home/env.sh"
id=$1
bin=$(mktemp -d "${TMPDIR:-/tmp}/rvmon-bin-XXXXXX") || exit 2
trap 'case "$bin" in /*/rvmon-bin-??????) rm -rf "$bin";; esac' EXIT
export RVMON_BIN_DIR=$bin
race=""
case " $RVMON_RACE_CHECKS " in *" $id "*) race="-race";; esac
if ! (cd "$home/harness" && go build $race -o "$bin/rvmon" .) >"$bin/build.log" 2>&1; then
  cat "$bin/build.log"
  echo "INCONCLUSIVE: the monitor does not build against /repo"
  exit 3
fi
"$bin/rvmon" check "$id" -tier "$VERIF_TIER" -seed "$VERIF_SEED" -home "$home"
