#!/bin/bash
# bash run.sh PROPERTY [driver options]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m dst.driver "$@"
