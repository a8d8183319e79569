#!/bin/bash
# Nothing to build: checks the toolchain and parses every specification.
cd "$(dirname "$0")/.." || exit 1
mkdir -p out evidence
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in spec/*.tla models/*.tla; do
  ( cd "$(dirname "$f")" && java -DTLA-Library="$PWD:$PWD/../spec" -cp "$CP" tla2sany.SANY "$(basename "$f")" >/tmp/sany.$$ 2>&1 ) || { echo "parse: $f"; cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo ok
