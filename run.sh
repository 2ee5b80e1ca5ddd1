#!/bin/sh
# usage: run.sh check Pxx | replay FILE | selftest | setup
# Runs the simulator against the working tree in $SDEPY_ROOT (default /repo).
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
: "${SDEPY_ROOT:=/repo}"
export SDEPY_ROOT
export PYTHONPATH="$here:$SDEPY_ROOT"
export PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED="${DST_HASHSEED:-0}"
exec /opt/venv/bin/python -m dst "$@"
