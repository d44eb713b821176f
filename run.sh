#!/bin/bash
# run.sh <property id> [--quick|--thorough] [--replay file] [--only harness]
D="$(cd "$(dirname "$0")" && pwd)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export VERIF_REPO="${VERIF_REPO:-/repo}"
W=$(mktemp -d /tmp/vsymXXXXXX)
trap 'rm -rf "$W"' EXIT
export TMPDIR="$W" PYSCF_TMPDIR="$W"
cd "$W" || exit 2
"${VERIF_PYTHON:-/opt/venv/bin/python}" -W ignore "$D/vsym/cli.py" "$@"
