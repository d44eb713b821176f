#!/bin/bash
# Nothing to compile: the checks run the real Python sources from /repo; C kernels are compiled by their check.
set -e
/opt/venv/bin/python -c "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print('z3', z3.get_version_string())"
mkdir -p /verif/evidence
