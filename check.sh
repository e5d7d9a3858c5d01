#!/bin/bash
# check.sh <property id> [--only label:idx] [--part kind]
exec python3 "$(dirname "$0")/tools/run.py" "$@"
