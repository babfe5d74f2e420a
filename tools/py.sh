#!/bin/bash
# run a script in the environment of the checks
here="$(cd "$(dirname "$0")/.." && pwd)"
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
export LD_LIBRARY_PATH=/opt/vp/py3/lib:/opt/venv/lib PYTHONPATH="$here"
exec /opt/venv/bin/python -W ignore "$@"
