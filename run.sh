#!/bin/bash
# run.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE] [--family NAME] ...
# Runs one check against the working tree of /repo (REPO overrides the path for
# experiments on scratch copies).  No compiled artefacts are used: Theano runs
# with its Python backend, so every run sees the current sources.
here=$(cd "$(dirname "$0")" && pwd)
export REPO=${REPO:-/repo}
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
export PYTHONPATH="$REPO:$here" PYTHONWARNINGS=ignore
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vf.XXXXXXXX") || exit 3
trap 'rm -rf "$scratch"' EXIT
export VF_SCRATCH=$scratch VF_HOME=$here
export THEANO_FLAGS="cxx=,device=cpu,floatX=float64,optimizer=fast_compile,linker=py,compiledir=$scratch/theano,on_unused_input=ignore,optimizer_excluding=AbstractConvCheck${VF_THEANO_EXTRA:+,$VF_THEANO_EXTRA}"
cd "$scratch" || exit 3
/opt/venv/bin/python -m vf "$@"
