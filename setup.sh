#!/bin/sh
# nothing to build: checks that the interpreter, the library and the reference model are usable
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$HERE"
exec /opt/venv/bin/python -c "import sys; assert sys.version_info >= (3, 12); from rv import spec, lib; print('model ready,', sum(spec.NFORMS.values()), 'form slots')"
