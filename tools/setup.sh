#!/bin/bash
# nothing to build: sanity check that the engine starts
cd "$(dirname "$0")/.." || exit 1
export PYTHONPATH="$PWD" LD_LIBRARY_PATH=/opt/vp/py3/lib:/opt/venv/lib PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c "import vf.run, vf.contract, z3; print('z3', z3.get_version_string())"
