#!/bin/bash
# Nothing to build: the checks are Python and import the code from /repo/src. Verifies that they can run.
cd "$(dirname "$0")" && export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src MPLBACKEND=Agg HOME=/root
MPLCONFIGDIR="$(mktemp -d)" && export MPLCONFIGDIR
/opt/venv/bin/python -c 'import aspsim.simulator, numpy, scipy, soundfile; print("ready:", aspsim.simulator.__file__)'
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
