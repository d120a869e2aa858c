#!/bin/bash
# Unpacks the property-based testing library next to the harness (checks also do this on demand).
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c "from harness import bootstrap; bootstrap.ensure(); import hypothesis; print('hypothesis', hypothesis.__version__)"
