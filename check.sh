#!/bin/bash
# check.sh PID quick|thorough [--replay FILE]
. /opt/vp/env.sh >/dev/null 2>&1
cd "$(dirname "$0")" && exec python lib/check.py "$@"
