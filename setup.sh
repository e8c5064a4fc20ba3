#!/bin/bash
# Nothing to build: checks import /repo's working tree and run the specifications with the installed TLC.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -c "import sys; sys.path.insert(0, 'harness'); import vt, givenergy_modbus"
test -f /opt/veriftools/tla/tla2tools.jar
