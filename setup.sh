#!/bin/bash
# Nothing to compile: check that the interpreter and the package under test load.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/tmp/rv-mpl
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "from rv import env; m = env.load(); print('rdtools', m.__file__)"
