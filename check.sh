#!/bin/bash
# usage: check.sh PROPERTY TIER   (env: VERIF_SEED)
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CUDA_VISIBLE_DEVICES= VERIF_TIER="$2"
exec python run.py "$1"
