#!/bin/sh
# check.sh <property> [--tier thorough]
exec python3 "$(dirname "$0")/run/check.py" "$@"
