#!/bin/bash
# usage: check.sh <property id> [quick|thorough]   or   check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -B -m mc.run "$@"
