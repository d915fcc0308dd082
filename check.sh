#!/bin/bash
# check.sh PROPERTY [quick|thorough]   run the check of one property against /repo's working tree
# check.sh replay FILE                 run one recorded counterexample again
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
scratch=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export MC_SCRATCH=$scratch MPLCONFIGDIR=$scratch/mpl PYTHONPYCACHEPREFIX=$scratch/pyc PYTHONPATH=$here
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$scratch" && "$py" -W ignore -m mc "$@"
