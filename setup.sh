#!/bin/bash
# Nothing to compile: check the interpreter and that the code under test and the monitors load.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence
PYTHONPATH=/repo/src:$PWD /opt/venv/bin/python -c "import lightcurvelynx, lclmon.core; print('ready', lightcurvelynx.__file__)"
