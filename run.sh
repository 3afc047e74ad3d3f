#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--replay FILE] [--sub NAME]
# Runs one check of this framework against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
exec env -i PATH="/usr/local/bin:/usr/bin:/bin" LANG=C.UTF-8 \
  VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" VF_JOBS="${VF_JOBS:-}" \
  VF_REPO="${VF_REPO:-/repo}" VF_SCALE="${VF_SCALE:-}" VF_EVIDENCE="${VF_EVIDENCE:-}" \
  PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 \
  /opt/venv/bin/python "$here/vf/main.py" "$@"
