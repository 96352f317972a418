#!/bin/bash
# usage: run.sh <property id> [quick|thorough]   (or: run.sh <id> --replay FILE)
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python "$here/vlib/driver.py" "$@"
