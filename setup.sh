#!/bin/bash
# Nothing is built: the specifications are parsed by TLC and the drivers import qtune from /repo.
# This only makes sure that everything needed is there and parses.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd spec
for f in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$tmp/out" 2>&1 || { cat "$tmp/out"; exit 1; }
    if grep -qi "error" "$tmp/out"; then cat "$tmp/out"; exit 1; fi
done
echo "specifications parse"
