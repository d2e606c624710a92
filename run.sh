#!/bin/bash
# run.sh <property id> [quick|thorough]: run the check of one property from /repo's current working tree
cd "$(dirname "$0")" || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg LC_ALL=C.UTF-8 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "checks/$id.py" "$tier"
