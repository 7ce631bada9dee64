#!/bin/bash
# Nothing to compile: verify that the interpreter and the code under test can be imported.
set -e
cd "$(dirname "$(readlink -f "$0")")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import numpy, pandas, harmonic_inference.utils.harmonic_utils"
