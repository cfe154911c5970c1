#!/bin/sh
# Nothing to build: the harness is Python. Check that the tools it needs exist.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PY=/opt/veriftools/pyvenv/bin/python
[ -x "$PY" ] || PY=python3-vt
"$PY" -c 'import hypothesis, sys; print("hypothesis", hypothesis.__version__, sys.version.split()[0])'
