#!/bin/bash
# run.sh PROPERTY [quick|thorough]  -- one bounded exhaustive exploration of the real code.
# run.sh --setup                    -- checks that the tools the explorer needs are there.
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
if [ "$1" = --setup ]; then
    mkdir -p evidence replays
    exec /opt/venv/bin/python -W ignore -c 'import numpy, scipy, Cython, sklearn, mc.core, mc.ds; print("ready")'
fi
[ -n "$2" ] && export VERIF_TIER="$2"
exec /opt/venv/bin/python -W ignore -m mc.main "$1"
