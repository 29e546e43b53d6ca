#!/bin/bash
# Runs the check of a property: check.sh ID [--replay FILE] [--tier T] [--seed N] [--kind K]
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -c 'import sys; from mv.core import main; sys.exit(main(sys.argv[1:]))' "$@"
