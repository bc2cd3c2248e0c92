#!/bin/bash
# Nothing has to be built: the code under test is pure Python and every check
# imports it from /repo. Only verify that the interpreter and modules are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
from zsmon import boot
boot.boot()
import scipy.stats
print('ok')" 2>/dev/null
