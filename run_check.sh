#!/bin/bash
# run_check.sh <ID> [--replay FILE]   runs one check against /repo's working tree.
# VERIF_SEED / VERIF_TIER come from the environment (defaults 1 / quick).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/nv.XXXXXX")" || exit 2
trap 'rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export NUMBA_CACHE_DIR="$scratch/numba" NV_SCRATCH="$scratch" PYTHONPATH="$repo:$here" NV_REPO="$repo" MPLBACKEND=Agg
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
mkdir -p "$here/evidence"
cd "$scratch" || exit 2
"$py" -W ignore -m nv.harness "$here" "$@"
