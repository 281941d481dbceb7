#!/bin/bash
# usage: run.sh <ID> [--tier quick|thorough] [--replay FILE]
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${MC_REPO:-/repo}
export LC_ALL=C.UTF-8 LANG=C.UTF-8
export PATH="/opt/venv/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export PYTHONPATH="$HERE:$REPO/python" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MC_REPO="$REPO"
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset GETDIST_CONFIG TMPSMALL TRAVIS_BUILD_DIR
WORK=$(mktemp -d) || exit 1
trap 'rm -rf "$WORK"' EXIT
mkdir "$WORK/tmp" "$WORK/home" "$WORK/mpl"
export HOME="$WORK/home" TMPDIR="$WORK/tmp" XDG_CACHE_HOME="$WORK/cache" MPLCONFIGDIR="$WORK/mpl"
cd "$HERE" || exit 1
case "$1" in
  C04|C05|C38) gcc -shared -fPIC -O1 -o "$WORK/fault.so" mc/shim/fault.c -ldl || { echo "cannot build the fault injector" >&2; exit 2; }
    export MC_SHIM="$WORK/fault.so" LD_PRELOAD="$WORK/fault.so";;
esac
/opt/venv/bin/python -W ignore -m mc.main "$@"
