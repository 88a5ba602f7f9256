#!/bin/bash
# Nothing has to be compiled: check that the interpreter and its packages are there.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c 'import numpy, scipy, autograd, iminuit; print("ok")'
