#!/bin/bash
# nothing to compile: confirms that the interpreter and library import, offline
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/evidence"
cd /tmp
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
D=$(mktemp -d); export MPLCONFIGDIR=$D
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '$HERE'); from harness import core; core.prepare_process(); print('ok')"
R=$?
rm -rf "$D"
exit $R
