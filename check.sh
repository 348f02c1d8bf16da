#!/bin/bash
# check.sh <property id> [quick|thorough]: run one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python -m vp.check "$1"
