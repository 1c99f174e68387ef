#!/bin/bash
# check.sh PROP: decide one property of /repo
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python run_check.py "$@"
