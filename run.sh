#!/bin/bash
# usage: run.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--only SCENARIO]
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH=/repo/src:$PWD PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m lclmon.core "$@"
