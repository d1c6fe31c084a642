#!/bin/bash
# Checks that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")/../spec"
/opt/venv/bin/python -c 'import binobj'
tmp=$(mktemp -d)
cp ./*.tla "$tmp"
cd "$tmp"
for m in *.tla; do
    TZ=UTC java -Djava.io.tmpdir="$tmp" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > log 2>&1 || { cat log; exit 1; }
    if grep -q "Fatal errors\|Could not parse\|Semantic errors" log; then cat log; exit 1; fi
done
cd /
rm -rf "$tmp"
echo "specifications parse"
