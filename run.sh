#!/bin/bash
# run.sh <ID> [--replay FILE] [--suite NAME]: runs the check of one property against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
scratch="$(mktemp -d /tmp/vh.XXXXXX)"
trap 'rm -rf -- "$scratch"' EXIT
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" \
  PYTHONHASHSEED="${PYTHONHASHSEED:-0}" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONPATH="$here" \
  VERIF_SCRATCH="$scratch"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
py=/opt/venv/bin/python
cd "$here"
"$py" -m vh "checks.$(echo "$id" | tr 'A-Z' 'a-z')" "$@"
