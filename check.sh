#!/bin/bash
# check.sh ID quick|thorough: decides one property against /repo's working tree.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
# Anything else is an error of the check.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property} TIER=${2:-quick}
. "$ROOT/tools/build.sh"
BIN=$ROOT/target/run/$ID.$$
trap 'rm -rf "$BIN"' EXIT
mkdir -p "$BIN" || exit 2
FEATURE=$(echo "$ID" | tr 'A-Z' 'a-z')
build_vh "$FEATURE" "$BIN" || { echo "the harness does not build" >&2; exit 2; }
unset VH_PLAIN
build_plain "$FEATURE" "$BIN" && export VH_PLAIN="$BIN/vh-plain $BIN/plain.sh"
# other builds of the same checks, run on some of the cases
STAGES=
stage() { # name command quick-cases thorough-cases longest seconds thorough-seconds
  STAGES="$STAGES $1"
  export "VH_STAGE_$1=$2 $3 $4 $5 $6 $7"
}
case $ID in
C19)
  build_asan "$FEATURE" "$BIN" && stage asan "$BIN/asan.sh" 4000 60000 300 120 900
  build_miri "$FEATURE" "$BIN" && stage miri "$BIN/miri.sh" 48 1600 24 240 2400
  ;;
C18)
  build_asan "$FEATURE" "$BIN" && stage asan "$BIN/asan.sh" 3000 60000 300 120 900
  ;;
C20)
  build_asan "$FEATURE" "$BIN" && stage asan "$BIN/asan.sh" 1000 20000 60 120 900
  build_miri "$FEATURE" "$BIN" && stage miri "$BIN/miri.sh" 24 800 8 240 2400
  ;;
C24)
  build_miri "$FEATURE" "$BIN" && stage miri "$BIN/miri.sh" 24 800 24 240 2400
  if [ "$TIER" = thorough ]; then
    build_tsan "$FEATURE" "$BIN" && stage tsan "$BIN/tsan.sh" 100 10000 300 120 900
  fi
  ;;
esac
export VH_STAGES="${STAGES# }" VERIF_ROOT=$ROOT
"$BIN/vh" run "$ID" "$TIER"
