#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec python3 engine/check.py "$@"
