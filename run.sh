#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay FILE] [--lane NAME] [--scale X]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TOKENIZERS_PARALLELISM=false TORCH_CPP_LOG_LEVEL=ERROR CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg HF_HUB_OFFLINE=1 PYTHONPATH=
unset LD_PRELOAD
exec /opt/venv/bin/python -W ignore -m vlib.core "$@"
