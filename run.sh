#!/bin/bash
# Usage: bash run.sh <property> [--replay FILE] [--case N]
# Runs the monitors of one property against /repo's current working tree (pure Python: nothing to build;
# the code is imported from /repo's sources, no bytecode is read or written).
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXX") || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/mpl" "$SCRATCH/tmp" "$SCRATCH/pyc"
[ -d /opt/vp/mplconfig ] && cp -r /opt/vp/mplconfig/. "$SCRATCH/mpl/" 2>/dev/null
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$SCRATCH/pyc" PYTHONHASHSEED=0
export PYTHONPATH="/repo:$HERE" MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VMON_SCRATCH="$SCRATCH/tmp" TMPDIR="$SCRATCH/tmp" VMON_HOME="$HERE"
cd "$HERE" || exit 2
/opt/venv/bin/python -W ignore -m mon.core "$@"
exit $?
