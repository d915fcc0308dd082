#!/bin/bash
# nothing to build: the checks import /repo's working tree directly. Says at once when something they need is missing.
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR=$(mktemp -d)
mkdir -p "$here/evidence"
cd / && PYTHONPATH="$here" "$py" -W ignore -c "
import numpy, networkx, msgpack, matplotlib
import mc.engine, mc.target
print('ready', mc.target.ntm.__file__)"
rc=$?
rm -rf -- "$MPLCONFIGDIR"
exit $rc
