#!/bin/bash
# Nothing has to be built: the checks are plain Python run by the interpreter of
# the repository. This makes sure that they can start.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore -c "import mc.common, mc.engine"
