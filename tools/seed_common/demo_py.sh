#!/bin/bash
# Runs the demonstration against the Python package built in /repo in a
# scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo-XXXXXX) || exit 99
trap 'rm -rf -- "${d:?}"' EXIT
cd "$d" && LD_LIBRARY_PATH=/repo/_build/mlio/lib PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src/mlio-py timeout 120 python3 "$here/demo.py"
