#!/bin/sh
# check.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE]; RV_REPO selects another tree
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONIOENCODING=utf-8 PYTHONWARNINGS=ignore PYTHONPATH="$HERE"
PY=/opt/venv/bin/python
exec "$PY" -m rv.run "$@"
