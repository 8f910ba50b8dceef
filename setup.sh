#!/bin/bash
# Builds the two C++ extensions of /repo's working tree into /verif/build (content addressed; checks reuse what is unchanged).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m vlib.native
