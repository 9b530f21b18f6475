#!/bin/bash
# Nothing is compiled: check that the interpreter and the library under test are usable.
cd "$(dirname "$(realpath "$0")")" || exit 1
mkdir -p evidence replays
export PYTHONPATH="/repo:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c 'import cbor2, cryptography, pyasn1, wv.main; print("setup ok")'
