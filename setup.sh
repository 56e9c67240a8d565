#!/bin/sh
# checks that the tools are there and warms the build of the driver crate (each check rebuilds on its own)
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import z3' || exit 1
exec python3-vt - <<'P'
import sys
sys.path.insert(0, ".")
from irsym import build
from irsym.engine import Program
Program(build.ir() + build.std_ir())
P
