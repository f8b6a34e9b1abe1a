#!/bin/bash
# Builds the disk-fault shim and checks that the code under test imports.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p out evidence
/opt/venv/bin/python -m dst.build && PYTHONPATH=/repo /opt/venv/bin/python -c 'import probayes'
