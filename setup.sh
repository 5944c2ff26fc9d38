#!/bin/bash
# builds the rustc driver and warms the dependency cache (facts are re-extracted by every check)
set -e
cd "$(dirname "$0")"
T=$(mktemp -d)
./facts.sh "$T"
/bin/rm -rf "$T"
