#!/bin/bash
# Builds the exploring programs once, which also warms the build cache.
cd "$(dirname "$0")" || exit 1
exec python3 plan.py mc mcsched mcsched-race
