#!/bin/bash
# compile the C++ kernel out of tree once (checks recompile when the sources changed)
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
PYTHONPATH="$PWD:${VERIF_REPO:-/repo}" /opt/venv/bin/python -m mc.env
