#!/bin/bash
# Builds what the checks share. Every check builds the rest, or all of it.
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/tools/build.sh"
T=$ROOT/target/run/setup.$$
mkdir -p "$T"
trap 'rm -rf "$T"' EXIT
build_vh c01 "$T" || exit 1
build_plain c01 "$T" || echo "no optimized build: checks go without" >&2
build_asan c19 "$T" || echo "no AddressSanitizer build: checks go without" >&2
build_miri c19 "$T" || echo "no Miri build: checks go without" >&2
exit 0
