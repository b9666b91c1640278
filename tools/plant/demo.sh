#!/bin/bash
# run in the root of the repository; fails if the property is broken
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$D/demo.py"
