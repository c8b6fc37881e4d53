#!/usr/bin/env bash
# usage: run.sh PROPERTY [quick|thorough]      decide one property
#        run.sh PROPERTY --replay FILE         replay one recorded violation
# Rebuilds k2 from /repo's working tree, then explores the bounded space.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
export PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES=
export PYTHONPATH="$here:/repo/k2/python:/opt/k2-build/lib"
log="$(mktemp /tmp/k2mc-build.XXXXXX)"
# (nproc, which the build asks, obeys OMP_NUM_THREADS: only set it afterwards)
if ! env -u OMP_NUM_THREADS K2_NATIVE_ONLY=1 bash /opt/vp/build.sh >"$log" 2>&1; then
  echo "BUILD-FAILED: /repo does not build" >&2
  tail -n 30 "$log" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m mc.main "$@"
