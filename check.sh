#!/bin/bash
# usage: check.sh PID [--tier quick|thorough] ...
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore mc/run.py "$@"
