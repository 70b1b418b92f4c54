#!/bin/bash
# check.sh <property id> [--tier quick|thorough] [-v] [--only GLOB] [--strict]  |  check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
exec /opt/venv/bin/python -m jaxvc.run "$@"
