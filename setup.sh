#!/bin/sh
# Nothing to build: pure Python.  Confirms that the interpreter and the tree import.
cd "$(dirname "$0")" && mkdir -p evidence replays &&
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '/repo')
import zigpy_cc.zigbee.application, zigpy_cc.api; print('ok')"
