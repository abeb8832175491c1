#!/bin/bash
# Builds the tools and harnesses; the checks rebuild what has changed in /repo.
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
exec python3 bin/build.py
