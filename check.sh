#!/bin/bash
# check.sh PROPERTY [quick|thorough]
export PYTHONHASHSEED=0
exec python3-vt "$(dirname "$0")/sa/check.py" "$@"
