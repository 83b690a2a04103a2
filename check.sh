#!/bin/bash
# check.sh <property id> [args]: run one check against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONUTF8=1 TZ=UTC LANG=C.UTF-8
export PYTHONPYCACHEPREFIX=/nonexistent HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent/hypothesis
unset PYTHONPATH
exec python3-vt harness/run.py "$@"
