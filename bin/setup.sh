#!/bin/bash
# Builds the driver once, so that later builds find the Go build cache filled,
# and parses the specification.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys
sys.path.insert(0, "bin")
from common import Work
w = Work()
try:
    w.build()
    w.build(race=True)
finally:
    w.close()
P
cd spec
for m in *.tla; do
	java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/dev/null
done
echo "setup done"
