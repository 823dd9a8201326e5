#!/bin/bash
# usage: ./run.sh C01 [--tier quick|thorough] [--case name:index]
# Runs the check of one property against the code in /repo/src.
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root LANG=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONPATH="${VF_REPO_SRC:-/repo/src}"
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
SCRATCH="$(mktemp -d /tmp/vf_run_XXXXXXXX)" || exit 2
export TMPDIR="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl"
mkdir -p "$MPLCONFIGDIR"
trap 'rm -rf "$SCRATCH"' EXIT
/opt/venv/bin/python "$HERE/vf/run.py" "$@"
exit $?
