#!/bin/bash
# Nothing is installed: the checks build what they need from /repo. This only confirms the build works.
cd "$(dirname "$0")" && python3 tools/mirror.py && mkdir -p evidence replays && exit 0
