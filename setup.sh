#!/bin/bash
# Nothing to build: checks run the working tree of /repo. Verifies that it can be run.
cd "$(dirname "$0")" || exit 2
PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c 'import mau, yaml, jinja2, mv.core, mv.ref, mv.gen; print("ready")'
