#!/bin/bash
# check.sh PROPERTY [quick|thorough] : run the monitors of one property against /repo.
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export LANG=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
# An empty bytecode cache: what runs is the source as it is now.
PYTHONPYCACHEPREFIX=$(mktemp -d) || exit 2
export PYTHONPYCACHEPREFIX
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
/opt/venv/bin/python -m pgmon.main "$1"
