#!/bin/bash
# Nothing to build: check that the tools are there.
cd "$(dirname "$0")" || exit 2
exec /opt/veriftools/pyvenv/bin/python -c 'import z3, sys; print("z3", z3.get_version_string()); sys.exit(0)'
