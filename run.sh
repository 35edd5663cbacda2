#!/bin/bash
# Usage: run.sh <property> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset LD_LIBRARY_PATH
exec python3-vt -m engine "$@"
