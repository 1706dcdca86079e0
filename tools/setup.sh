#!/bin/bash
# Builds the driver once, which warms Go's build cache, and checks that the
# specifications parse.
set -e
cd "$(dirname "$0")/.."
mkdir -p out evidence
python3 - <<'P'
import os, sys, tempfile
sys.path.insert(0, "tools")
import check
d = os.path.join("out", "setup")
os.makedirs(d, exist_ok=True)
check.build(os.path.abspath(d))
P
rm -rf "$PWD/out/setup"
for f in spec/*.tla; do
  (cd spec && java -cp "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tla2sany.SANY "$(basename "$f")" >/dev/null) || { echo "SANY: $f"; exit 1; }
done
echo setup done
