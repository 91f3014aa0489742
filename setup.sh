#!/bin/sh
# Nothing to install: every check builds what it needs. Only verifies the tools are there.
set -e
command -v gcc g++ gfortran cmake ninja python3 >/dev/null
python3 -c 'import json; json.load(open("MANIFEST.json")); json.load(open("checks.json"))'
echo setup ok
