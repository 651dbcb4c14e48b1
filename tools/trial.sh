#!/bin/bash
# trial.sh PATCH PROP...: applies PATCH to a scratch copy of /repo and runs the checks of the given properties on it.
set -u
patch=$(realpath "$1"); shift
w=$(mktemp -d /tmp/trialXXXXXX)
cp -a "${VERIF_BASE:-/repo}" "$w/repo"
if ! git -C "$w/repo" apply "$patch"; then echo "patch does not apply"; rm -rf "$w"; exit 3; fi
for p in "$@"; do
  VERIF_REPO=$w/repo VERIF_BUILD=$w/build timeout 900 "$(dirname "$0")/../check/$p" > "$w/log" 2>&1; rc=$?
  echo "$(basename "$(dirname "$patch")")/$(basename "$patch") $p rc=$rc $(grep -m1 '^#' "$w/log" | cut -c1-220)"
  if [ $rc != 0 ] && [ $rc != 1 ]; then tail -5 "$w/log"; fi
done
rm -rf "$w"
