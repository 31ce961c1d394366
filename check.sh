#!/bin/sh
# check.sh C05 [--tier thorough] [--seed N] | check.sh --replay FILE
cd "$(dirname "$0")" && exec python3 tools/run.py "$@"
