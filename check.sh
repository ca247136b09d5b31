#!/bin/bash
# check.sh PROPERTY [quick|thorough]
exec python3 "$(dirname "$(readlink -f "$0")")/tools/run.py" "$1" --tier "${2:-quick}"
