#!/bin/bash
# record the currently proved contracts of the given properties (run by hand)
cd "$(dirname "$0")"
for p in "$@"; do PYVC_RECORD_PROVED=1 /opt/venv/bin/python -W ignore check.py $p 2>&1 | tail -1; done
