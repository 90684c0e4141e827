#!/bin/bash
# check.sh <property id>: decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
exec python3-vt -B dv/check.py "$1"
