#!/bin/bash
# Nothing to build: the library is pure Python. Checks that the framework imports and sees /repo's code.
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -B -c 'import pbt.common, hypothesis, vfbLib.vfb.vfb; print(hypothesis.__version__, vfbLib.vfb.vfb.__file__)'
