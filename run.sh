#!/bin/bash
# usage: run.sh <property>   builds the checks against /repo's working tree, runs one.
cd "$(dirname "$0")/checks" || exit 3
log=$(mktemp)
# C36 compares with a second build, of other features.
twin=true
case "$*" in *C36*) twin="cargo build --offline --quiet --no-default-features --features twin --target-dir target/twin";; esac
if ! { cargo build --offline --quiet && $twin; } >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "the checks do not build against /repo"
  exit 3
fi
rm -f "$log"
if [ -n "$VERIF_VERBOSE" ]; then exec ./target/debug/checks "$@"; fi
# The library reports ignored arguments on stderr.
exec ./target/debug/checks "$@" 2>/dev/null
