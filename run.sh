#!/bin/bash
# run.sh <property id> [--replay FILE]   Runs one check against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
scratch=$(mktemp -d /tmp/oranssi-verif.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export VERIF_SCRATCH="$scratch" MPLCONFIGDIR="$scratch/mpl"
mkdir -p "$MPLCONFIGDIR"
cp -r /opt/vp/mplconfig/. "$MPLCONFIGDIR/" 2>/dev/null
timeout -k 5 880 /opt/venv/bin/python -W ignore "$here/check.py" "$@"
