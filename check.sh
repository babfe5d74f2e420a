#!/bin/bash
# bash check.sh PROPERTY [quick|thorough] [contract-filter]
cd "$(dirname "$0")" || exit 3
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export LD_LIBRARY_PATH=/opt/vp/py3/lib:/opt/venv/lib
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore -m vf.run "$@"
