#!/bin/bash
# check.sh <property id> [--replay <file>]   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 2
SCRATCH=$(mktemp -d /tmp/zsmon.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export HOME="$SCRATCH" TMPDIR="$SCRATCH"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX="$SCRATCH/pyc"
export TF_ENABLE_ONEDNN_OPTS=0 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export ZSMON_REPO="${ZSMON_REPO:-/repo}"
/opt/venv/bin/python -W ignore -m zsmon.core "$@" 2>"$SCRATCH/stderr"
RC=$?
[ $RC -ne 0 ] && grep -v -e cuda -e InitializeLog -e deprecated -e "^Instructions" "$SCRATCH/stderr" | tail -n 30
exit $RC
