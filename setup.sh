#!/bin/bash
# Nothing to build: checks the tools and the reference implementation.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
"${MC_PYTHON:-/opt/venv/bin/python}" -B -m mc.ref && mkdir -p evidence
