#!/bin/bash
# Validates the reference model against brute force, offline; nothing to build.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p evidence replays
exec python -m vmon.selftest
