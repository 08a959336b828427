#!/bin/bash
# usage: check.sh <property> [args of vf.run]; run the monitored workload of one property
# against the code in /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} LC_ALL=C.UTF-8
export PATH=/opt/venv/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES=
export MLFLOW_DISABLE_TELEMETRY=true DO_NOT_TRACK=true GIT_PYTHON_REFRESH=quiet
export VF_REPO=${VF_REPO:-/repo}
export PYTHONPATH=$VF_REPO:$PWD
exec /opt/venv/bin/python -m vf.run "$@"
