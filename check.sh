#!/bin/bash
# check.sh Cxx [options]: run the check of one property (see dst/run.py).  Tier and seed: VERIF_TIER, VERIF_SEED.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m dst.run "$@"
