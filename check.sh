#!/bin/bash
# check.sh PROPERTY: re-analyse /repo's current working tree and decide one property
set -u
cd "$(dirname "$0")"
V=$(pwd)
export VP_BUILD="${VP_BUILD:-$V/build}"
mkdir -p "$VP_BUILD" "$V/evidence"
exec 9>"$VP_BUILD/.lock"
flock 9
OUT=$(mktemp -d "$VP_BUILD/facts.XXXXXX")
trap 'rm -rf "$OUT"' EXIT
if ! ./facts.sh "$OUT" "${VP_REPO:-/repo}" >"$OUT/log" 2>&1; then
  cat "$OUT/log"
  echo "could not extract facts (does the repository build?)"
  exit 3
fi
flock -u 9
for P in "$@"; do
  python3 analysis/run.py "$P" "$OUT" || exit $?
done
