#!/bin/bash
# Nothing to build: the package and the checks are pure Python.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -W ignore -c "
import sys; sys.path.insert(0, '.')
import mc.boot, mc.core
print('dolfyn from', mc.boot.dolfyn.__file__)"
