#!/bin/bash
# usage: run.sh <check-script> -- runs one monitor against /repo's working tree.
# VERIF_SEED / VERIF_TIER come from the environment.
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONPATH=/repo:$HERE/lib PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} VERIF_ROOT=$HERE
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-2}
SCRATCH=$(mktemp -d /tmp/vmon.XXXXXXXX) || exit 3
export VERIF_SCRATCH=$SCRATCH XDG_CACHE_HOME=$SCRATCH/xdg HOME=$SCRATCH/home TMPDIR=$SCRATCH/tmp
mkdir -p "$XDG_CACHE_HOME" "$HOME" "$TMPDIR"
cleanup() { rm -rf -- "$SCRATCH"; }
trap cleanup EXIT
cd "$SCRATCH" || exit 3
/opt/venv/bin/python "$HERE/checks/$1.py" "${@:2}"
rc=$?
exit $rc
