#!/bin/sh
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt engine/run.py "$1" "${2:-quick}"
