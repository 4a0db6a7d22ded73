#!/bin/bash
# usage: ./run.sh C01 quick|thorough  |  ./run.sh C01 replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 PYTHONIOENCODING=utf-8
exec python3-vt harness.py "$@" < /dev/null
