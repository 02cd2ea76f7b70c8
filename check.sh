#!/bin/sh
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE]
dir=$(cd "$(dirname "$0")" && pwd)
cd "$dir" || exit 2
exec env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pv.main "$@"
