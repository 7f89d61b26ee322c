#!/bin/bash
# Nothing to build ahead: every check imports the code from /repo's working tree and compiles the
# C++ log shipper (when it needs it) into its own scratch directory.  Only verify the tools exist.
set -e
/opt/venv/bin/python -c 'import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); import hypothesis, pydantic'
mkdir -p "$(dirname "$0")/evidence"
