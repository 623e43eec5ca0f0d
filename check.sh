#!/bin/bash
# bash check.sh ID   run one property's check against /repo's working tree
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
unset PYTHONPATH PYTHONHOME PYTHONOPTIMIZE
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
PY=/opt/venv/bin/python
if [ "$1" = replay ] || [ "$1" = selftest ]; then
  exec "$PY" -m rv "$@"
fi
exec "$PY" -m rv check "$@"
