#!/bin/bash
# check.sh <property> <tier> [args]: explores the property's space on /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
p="$1"; t="${2:-quick}"; shift; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PYBIN="${PY:-/opt/venv/bin/python}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD"
if [ "$p" = selftest ]; then exec "$PYBIN" -W ignore -c "from mc import core; core.setup_worker(); from mc import tasks, kv, llm; print('ok')"; fi
exec "$PYBIN" -W ignore -m mc "$p" --tier "$t" "$@"
