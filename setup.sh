#!/bin/bash
# Nothing to build: the checks import the code from /repo's working tree. Verify that the interpreter can load both sides.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c 'from dst import world; world.boot(); print("ready:", world.specula.__file__)'
