#!/bin/bash
# Nothing to compile: check that the interpreter and the code under test import.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -c "import ethereum, rust_pyspec_glue, coincurve, Crypto"
python3 -c "import sys; sys.dont_write_bytecode=True; import dst.registry"
echo setup ok
