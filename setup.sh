#!/bin/sh
# Nothing to build: the checks encode /repo's current source on every run. Only checks that the tools are there.
set -e
cd "$(dirname "$0")"
command -v cbmc goto-cc goto-instrument gcc clang-18 opt-18 >/dev/null
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, sklearn, z3
P
mkdir -p evidence out
