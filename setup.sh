#!/bin/sh
# nothing to build: the verifier is Python; make sure its parts load
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif:/repo exec /opt/venv/bin/python -c '
import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, pysqlsync, pyvc.engine, pyvc.runner
print("z3", z3.get_version_string())'
