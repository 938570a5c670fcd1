#!/bin/bash
# usage: run.sh <property-id> [quick|thorough]     (from any directory)
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES=
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export LITELLM_LOCAL_MODEL_COST_MAP=True HF_HUB_OFFLINE=1
unset OPENAI_API_KEY ANTHROPIC_API_KEY EFFECTFUL_LLM_MODEL REBUILD_FIXTURES PYTEST_ADDOPTS PYTHONPATH
export PYTHONPATH="$HERE:/repo"
cd "$HERE" || exit 4
exec /opt/venv/bin/python -m harness.runner "$@"
