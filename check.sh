#!/bin/bash
# ./check.sh ID [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
exec python3 tools/check.py "$@"
