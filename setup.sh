#!/bin/bash
# Nothing to install: each check builds /repo's tree itself (lib/builder.py). This only checks the toolchain.
. /opt/vp/env.sh >/dev/null 2>&1
cd "$(dirname "$0")" && python lib/builder.py plain
