#!/bin/sh
# everything is interpreted: checks that tools are in place and builds caches
dir=$(cd "$(dirname "$0")" && pwd)
cd "$dir" || exit 2
exec env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c '
import hypothesis, mypy.build
from pv import build
print(build.ensure())
'
