#!/bin/bash
# usage: run.sh Cxx [--replay FILE]   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0
exec /opt/venv/bin/python -m vmon.runner "$@"
