#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   |   run.sh replay FILE
cd "$(dirname "$0")" || exit 3
export HOME=/root LANG=C.UTF-8 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OPENCV_FOR_THREADS_NUM=1 GDAL_NUM_THREADS=1 NO_COLOR=1
unset DELAYED_IMAGE_WARP_DEBUG DELAYED_IMAGE_DEBUG_ARRAY_EVENTS DELAYED_IMAGE_GDAL_FAST_PATH
WORK=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 3
trap '/bin/rm -rf "$WORK"' EXIT
export TMPDIR="$WORK" MC_WORK="$WORK" XDG_CACHE_HOME="$WORK/cache"
mkdir -p "$WORK/cache"
export PYTHONPATH=${MC_REPO:+$MC_REPO:}$(pwd)
/opt/venv/bin/python -m mc "$@"
