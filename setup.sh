#!/bin/bash
# Nothing to build: the checks are Python and import /repo directly. Verify the interpreter.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec python3-vt -c 'import hypothesis; print("hypothesis", hypothesis.__version__)'
