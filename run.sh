#!/bin/bash
# run.sh Cnn [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8
unset DJANGO_SETTINGS_MODULE DATABASE_ENGINE PYTHONPATH
exec /opt/venv/bin/python run.py "$@"
