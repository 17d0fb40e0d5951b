#!/bin/bash
# usage: run.sh <property id> <quick|thorough>   or   run.sh replay <file>
# Runs a check against /repo's working tree; bytecode is neither read from nor written to /repo.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export PYTHONPYCACHEPREFIX="$(mktemp -d /tmp/verif_pyc.XXXXXX)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 VTK_SMP_MAX_THREADS=1
export PYTHONPATH="${VERIF_REPO:-/repo}"
unset DISPLAY WAYLAND_DISPLAY
/opt/venv/bin/python -m mc "$@"
rc=$?
rmdir "$PYTHONPYCACHEPREFIX" 2>/dev/null
exit $rc
