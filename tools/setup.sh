#!/bin/bash
# Nothing to build: the specification is interpreted by TLC and the harness by Python. Checks that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import ruleskit; assert ruleskit.__file__.startswith('/repo/'), ruleskit.__file__"
echo setup ok
