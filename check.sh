#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough] [--replay FILE]
# Runs the runtime monitors of one property against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
scratch="$(mktemp -d /tmp/verif-XXXXXXXX)" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export MPLCONFIGDIR="$scratch/mpl" TMPDIR="$scratch" VERIF_SCRATCH="$scratch"
mkdir -p "$MPLCONFIGDIR"
cd "$scratch" || exit 2
PYTHONPATH="${VERIF_REPO:-/repo}:$here" /opt/venv/bin/python -W ignore -m mon.run "$prop" "$tier" "$@"
exit $?
