#!/bin/bash
# run.sh <property> <tier>
cd "$(dirname "$0")" && exec python3-vt check.py "$1" "$2"
