#!/bin/bash
# builds every harness (objects are cached by content in .cache, checks rebuild whatever changed)
exec python3 "$(dirname "$(readlink -f "$0")")/tools/build.py" all
