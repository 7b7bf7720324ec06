#!/bin/sh
# check.sh <property>
cd "$(dirname "$0")" && exec python3-vt engine/check.py "$@"
