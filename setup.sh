#!/bin/bash
# nothing to compile: check that the interpreter and the code under test import
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$(mktemp -d)" PYTHONPATH=/repo /opt/venv/bin/python -c "import lingam, mon.core, mon.run, mon.oracle, mon.gen" || exit 1
echo setup ok
