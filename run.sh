#!/bin/bash
# run.sh <PROPERTY> [quick|thorough]      run one check
# run.sh replay <evidence/replay/X.json>  re-run one recorded counterexample
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 TZ=UTC PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -B -W ignore -m mc "$@"
