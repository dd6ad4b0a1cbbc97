#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p "$MPLCONFIGDIR"
exec /opt/venv/bin/python -m symx.run "$@"
