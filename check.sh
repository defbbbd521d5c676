#!/bin/bash
# check.sh <property> [tier]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
T=${2:-${VERIF_TIER:-quick}}
exec /opt/venv/bin/python -W ignore run.py "$1" --tier "$T"
