#!/bin/bash
# usage: run.sh <check-module> [quick|thorough] [--replay FILE]
# Runs one check of /verif/checks against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg
export VERIF_HOME="$here"
unset PYTHONPATH
mod="$1"; shift
case "$1" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
: "${VERIF_TIER:=quick}"; export VERIF_TIER
: "${VERIF_SEED:=1}"; export VERIF_SEED
export PYTHONPATH="$here"
exec /opt/venv/bin/python -W ignore "$here/checks/$mod.py" "$@"
