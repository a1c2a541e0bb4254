#!/bin/bash
# Compiles the simulator and all checks once, to fail early if a tool is
# missing. Every check rebuilds what it needs by itself.
cd "$(dirname "$0")" || exit 2
exec python3 run.py --build-only
