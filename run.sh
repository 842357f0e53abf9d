#!/bin/bash
# bash run.sh C05 [--tier quick|thorough] [--replay FILE]
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
exec python mc/main.py "$@"
