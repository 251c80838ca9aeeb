#!/bin/bash
# Nothing to compile: the checks import /repo/src as it is. Makes sure that works.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
unset PYTHONPATH
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'E'
import aligned_textgrid, os, sys
p = os.path.realpath(aligned_textgrid.__file__)
print("code under test:", p)
sys.exit(0 if p.startswith("/repo/src/") else 1)
E
