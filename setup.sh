#!/bin/bash
# Compile the float primitives TLC evaluates natively and parse every module.
set -e
cd "$(dirname "$0")"
mkdir -p build out evidence
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build java/DSOverrides.java
for m in spec/*.tla; do
  (cd spec && java -DTLA-Library=. -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
     tla2sany.SANY "$(basename "$m")") > out/sany.log 2>&1 || { cat out/sany.log; exit 1; }
done
echo "setup done"
