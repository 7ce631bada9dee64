#!/bin/bash
# Run one property's check on /repo's working tree: check.sh <ID> [options of run.py]
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export HOME=/root
unset PYTHONPATH
exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/run.py" "$@"
