#!/bin/sh
# Builds the Java operator overrides and the drivers once (checks rebuild what changed).
cd "$(dirname "$0")" || exit 2
exec python3 -c '
import sys; sys.path.insert(0, "."); sys.dont_write_bytecode = True
from lib import build
build.java()
for f in (build.qdrv, build.rdrv):
    try: f()
    except build.BuildError as e: print("not built:", e)
'
