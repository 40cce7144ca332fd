#!/bin/bash
# offline; nothing to build: check that the interpreter, z3 and the encoder come up
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, '.')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, scipy
import engine.loader, engine.runner
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
P
mkdir -p evidence
