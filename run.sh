#!/bin/bash
# ./run.sh <property> [quick|thorough]   run one check
# ./run.sh replay <file>                 replay a recorded violation
# ./run.sh selftest [property ...]       determinism of the simulator
# ./run.sh build                         build the interposer only
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
so="$here/build/libsimshim.so"
src="$here/sim/native/shim.c"
if [ ! -s "$so" ] || [ "$src" -nt "$so" ]; then
  mkdir -p "$here/build" || exit 2
  gcc -U_FORTIFY_SOURCE -O1 -fPIC -shared -Wno-nonnull-compare -o "$so.$$" "$src" -ldl -lpthread || exit 2
  mv -f "$so.$$" "$so" || exit 2
fi
[ "$1" = build ] && exit 0
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED="${VERIF_HASHSEED:-0}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export TZ=UTC0 LC_ALL=C.UTF-8 PYTHONWARNINGS=ignore
unset PYTHONPATH
exec env LD_PRELOAD="$so" "$py" "$here/sim/main.py" "$@"
