#!/bin/bash
# usage: run.sh ID [quick|thorough]      decides one property
#        run.sh replay FILE              repeats a recorded violation
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 LC_ALL=C.UTF-8
unset PYTHONPYCACHEPREFIX
exec /opt/venv/bin/python -m mc.main "$@"
