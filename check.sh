#!/bin/bash
# check.sh <property id>: decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= \
  TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg \
  /opt/venv/bin/python -W ignore harness/main.py "$@" 2> >(grep -v -E 'XLA|cuda|TF-TRT|computation_placer|Gym has been|Gymnasium|gymnasium.farama|^$' >&2)
