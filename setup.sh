#!/bin/bash
# Checks build what they need from /repo's working tree themselves; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
chmod +x check.sh
command -v clang clang++ python3 >/dev/null
mkdir -p evidence replays .cache
