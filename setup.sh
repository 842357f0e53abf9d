#!/bin/bash
# Prebuild the variants of the native extension (cached by content hash; each check rebuilds what changed).
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
exec python mc/build.py plain sched asan asanz
