#!/bin/bash
# Nothing to build: the checks import the code from /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
PYTHONPATH="$PWD:/repo" PYTHONDONTWRITEBYTECODE=1 /opt/pypyvenv/bin/python -c "import oa, mc.core; print('ok')"
