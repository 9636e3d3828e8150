#!/bin/bash
# Runs the simulator with the interpreter gdspy is installed for.
exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/run.py" "$@"
