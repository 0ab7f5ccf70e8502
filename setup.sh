#!/bin/sh
# Builds every harness from /repo's working tree, offline.
cd "$(dirname "$0")" && exec ./check.py build
