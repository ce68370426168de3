#!/bin/bash
# Checks that the toolchain is there and that every specification parses. Nothing is built.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, networkx"
java -version 2>/dev/null
d=$(mktemp -d)
cp spec/*.tla "$d"
for f in spec/*.tla; do
    [ "$f" = spec/ParamProofs.tla ] && continue      # read by tlapm, which has its own library
    (cd "$d" && java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" > sany.out 2>&1 && ! grep -q "\*\*\* Errors" sany.out) \
        || { cat "$d/sany.out"; rm -rf "$d"; exit 1; }
done
rm -rf "$d"
echo "setup ok"
