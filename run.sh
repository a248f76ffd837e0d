#!/bin/bash
# run.sh <property> : discharge the contracts of one property against /repo's working tree
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
exec /opt/venv/bin/python -W ignore -m vf.boot "$@"
