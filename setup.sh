#!/bin/bash
# nothing is installed: checks that the tools the checks rely on are there and that amlib imports
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD:/repo"
command -v clang >/dev/null || { echo "clang is missing"; exit 1; }
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.argv=['x']
import vf.boot as b
import z3, numpy, amaranth
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'amaranth', amaranth.__version__)"
