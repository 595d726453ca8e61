#!/bin/bash
# Nothing to build: the checks import the code from /repo and run it with the interpreter it is installed for.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD" /opt/venv/bin/python - <<'P'
import omemo, twomemo, oldmemo, xeddsa, vt.world
print("ready:", omemo.__file__)
P
