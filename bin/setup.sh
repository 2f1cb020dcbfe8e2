#!/bin/sh
# Warms the build: every check builds its own driver again from /repo's working tree.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, "bin")
import vlib
c = vlib.Check("SETUP", "quick", 1)
c.build()
c.cleanup()
P
