#!/bin/bash
# Unpacks hypothesis (and its one dependency) next to the checks, offline. The
# interpreter is the one the repository is built with (/opt/venv).
set -eu
cd "$(dirname "$0")"
exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); from vp import deps; deps.ensure(); import hypothesis; print("hypothesis", hypothesis.__version__)'
