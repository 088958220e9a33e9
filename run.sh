#!/bin/bash
# run.sh PROPERTY [thorough] | run.sh --replay FILE
here=$PWD
cd "$(dirname "$0")" || exit 1
log=$(mktemp)
if ! ./build.sh >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "the harness does not build against /repo's current tree"
  exit 3
fi
rm -f "$log"
bin() { [ "$1" = C28 ] && echo .build/bin/harness_mbt || echo .build/bin/harness; }
if [ "$1" = --replay ]; then
  f=$2; [ -e "$f" ] || f=$here/$2
  p=$(grep -oE '"Property": *"C[0-9]+"|"property": *"C[0-9]+"' "$f" | grep -oE 'C[0-9]+' | head -1)
  exec $(bin "$p") replay "$f"
fi
[ "$2" = thorough ] && export VERIF_TIER=thorough || export VERIF_TIER=quick
exec $(bin "$1") check "$1"
