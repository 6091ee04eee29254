#!/bin/bash
# Offline set-up: unpack hypothesis from the wheelhouse next to the checks (git-ignored).
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from vlib import boot
boot.ensure_hypothesis()
import hypothesis; print('hypothesis', hypothesis.__version__)
"
