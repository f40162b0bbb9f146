#!/bin/bash
# Nothing to install: each check builds what it needs. This only makes sure that
# the tools are there.
set -e
for t in g++ gcc ninja python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/evidence"
