#!/bin/bash
# replay.sh FILE: runs the case of a replay file against /repo's working tree.
# Exit 0: it holds. Exit 1: it is broken.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
FILE=$(realpath "${1:?replay file}")
. "$ROOT/tools/build.sh"
T=$ROOT/target/run/replay.$$
mkdir -p "$T"
trap 'rm -rf "$T"' EXIT
ID=$(sed -n 's/^vh1 \([A-Z0-9]*\).*/\1/p' "$FILE" | head -n 1)
BY=$(sed -n '1s/.*, by \([a-z]*\)$/\1/p' "$FILE")
FEATURE=$(echo "$ID" | tr 'A-Z' 'a-z')
case $BY in
plain | asan | tsan | miri)
  "build_$BY" "$FEATURE" "$T" || exit 2
  "$T/$BY.sh" "$FILE"
  ;;
*)
  build_vh "$FEATURE" "$T" || exit 2
  "$T/vh" replay "$FILE"
  ;;
esac
R=$?
[ $R = 0 ] && exit 0
[ $R = 2 ] && exit 2
exit 1
